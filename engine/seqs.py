"""Event sequences of a function: what it emits / consumes, as a tree of tokens, loops and alternatives."""
import cfg
from sym import C, subst, neg_cond, add, neg, walk
from ranges import loop_ranges


def returns_const(b, k):
    """edge-insensitive: block b does nothing but return the constant k (through phis)"""
    return b.term.op == "ret" and b.term.ops and b.term.ops[0].is_int() and b.term.ops[0].val == k


class Walker:
    """tokens(inst) -> list of tokens (or None); decide(cond term) -> True/False/None; reject: constant whose return
    means that the operation failed (such exits are left out), or None."""

    def __init__(self, S, fn, tokens, decide=lambda c: None, reject=None):
        self.S, self.fn, self.tokens, self.decide, self.reject = S, fn, tokens, decide, reject
        self.heads = {L.header: L for L in cfg.loops(fn)}
        self.failing = set()
        if reject is not None:
            self._failing()

    def _failing(self):
        """edges / blocks that can only end in the rejecting return"""
        rets = [b for b in self.fn.blocks if b.term.op == "ret" and b.term.ops]
        bad = set()
        edges = set()
        for b in rets:
            v = b.term.ops[0]
            if v.is_int():
                if v.val == self.reject:
                    bad.add(b)
            elif v.kind == "inst" and v.op == "phi" and v.block is b:
                for x, p in v.incoming:
                    if x.is_int() and x.val == self.reject:
                        edges.add((p, b))
        ch = True
        while ch:
            ch = False
            for b in self.fn.blocks:
                for x in b.succs:
                    if (b, x) not in edges and self._rejects(b, x, {}, bad, edges, 0):
                        edges.add((b, x))
                        ch = True
                if b in bad or not b.succs:
                    continue
                if all(s in bad or (b, s) in edges or self.dead(s) for s in b.succs) and \
                        not all(self.dead(s) for s in b.succs):
                    bad.add(b)
                    ch = True
        self.failing = bad
        self.failing_edges = edges

    def _rejects(self, a, b, env, bad, edges, depth):
        """does entering b from a (constants known in env) settle that the failure value is returned?"""
        if b in bad or (a, b) in edges:
            return True
        if depth > 6:
            return False
        env = dict(env)

        def val(v):
            return v.val if v.is_int() else env.get(v)
        new = {}
        for ph in b.phis:
            for v, p in ph.incoming:
                if p is a:
                    new[ph] = val(v)
        env.update(new)
        for i in b.insts:
            if i.op == "phi":
                continue
            x = None
            if i.op in ("zext", "sext", "trunc", "freeze"):
                x = val(i.ops[0])
                if x is not None and i.type == "i1":
                    x &= 1
            elif i.op == "icmp":
                p, q = val(i.ops[0]), val(i.ops[1])
                if p is not None and q is not None and i.pred in ("eq", "ne"):
                    x = int((p == q) == (i.pred == "eq"))
            elif i.op == "xor" and i.type == "i1":
                p, q = val(i.ops[0]), val(i.ops[1])
                if p is not None and q is not None:
                    x = (p ^ q) & 1
            env[i] = x
        t = b.term
        if t.op == "ret":
            return bool(t.ops) and val(t.ops[0]) is not None and (val(t.ops[0]) & 1) == self.reject
        if t.op == "br" and len(t.targets) == 2:
            c = val(t.ops[0])
            if c is not None:
                return self._rejects(b, t.targets[0 if c & 1 else 1], env, bad, edges, depth + 1)
            return False
        if t.op == "br" and len(b.succs) == 1 and depth:
            return self._rejects(b, b.succs[0], env, bad, edges, depth + 1)
        if t.op == "br" and len(b.succs) == 1 and any(v is not None for v in new.values()):
            return self._rejects(b, b.succs[0], env, bad, edges, depth + 1)
        return False

    def dead(self, b):
        return b.term.op == "unreachable"

    def drop(self, a, b):
        return self.dead(b) or b in self.failing or (self.reject is not None and (a, b) in self.failing_edges)

    def all(self):
        return self.seq(self.fn.blocks[0], None, None, 0)

    def loop(self, L, depth):
        outs = []
        for (b, t) in L.exits():
            if not self.drop(b, t):
                outs.append((b, t))
        rs = [r for r in loop_ranges(self.S, L) if not [x for x in r.others if not self.drop(*x)]]
        body = self.seq(L.header, L.header, L, depth + 1, first=True)
        tg = {t for _, t in outs}
        nxt = next(iter(tg)) if len(tg) == 1 else None
        if len(tg) > 1:
            js = {b for b in tg}
            nxt = None
            for c in js:
                if all(c is d or cfg.postdominates(c, d) for d in js):
                    nxt = c
        rs.sort(key=lambda r: r.first is not True)
        return ("loop", rs[0] if rs else None, tuple(body)), nxt

    def seq(self, b, stop, L, depth, first=False):
        out = []
        n = 0
        while b is not None and (b is not stop or first):
            first = False
            n += 1
            if n > 500 or depth > 40:
                out.append(("?", "too deep"))
                break
            H = self.heads.get(b)
            if H is not None and H is not L:
                node, b = self.loop(H, depth)
                if node[2]:
                    out.append(node)
                continue
            for i in b.insts:
                t = self.tokens(i)
                if t:
                    out.extend(t)
            t = b.term
            if t.op in ("ret", "unreachable"):
                break
            ss = []
            for s in b.succs:
                if self.drop(b, s) or (L is not None and s not in L.blocks) or s in ss:
                    continue
                ss.append(s)
            if not ss:
                break
            if len(ss) > 1 and t.op == "br":
                c = self.S.cond(self.S.t(t.ops[0]))
                d = self.decide(c)
                if d is not None:
                    ss = [t.targets[0] if d else t.targets[1]]
            if len(ss) == 1:
                b = ss[0]
                continue
            join = cfg.ipdom(self.fn)[0].get(b)
            if join is not None and not hasattr(join, "insts"):
                join = None
            if L is not None and join not in L.blocks:
                join = stop
            alts = [tuple(self.seq(s, join if join is not None else stop, L, depth + 1)) for s in ss]
            if all(a == alts[0] for a in alts):
                out.extend(alts[0])
            else:
                c = self.S.cond(self.S.t(t.ops[0])) if t.op == "br" else None
                out.append(("alt", c, tuple(alts)))
            b = join
            if join is None:
                break
        return out


def decider(assume):
    """decide(cond) from known atomic conditions {cond: bool}"""
    def d(c):
        if c in assume:
            return assume[c]
        n = neg_cond(c)
        if n in assume:
            return not assume[n]
        if c[0] == "and":
            v = [d(x) for x in c[1:]]
            return False if False in v else (True if all(x is True for x in v) else None)
        if c[0] == "or":
            v = [d(x) for x in c[1:]]
            return True if True in v else (False if all(x is False for x in v) else None)
        if c[0] == "c":
            return bool(c[1])
        return None
    return d


def assuming(t, assume):
    d = decider(assume)

    def f(a):
        if a[0] == "sel":
            v = d(a[1])
            if v is not None:
                return assuming(a[2] if v else a[3], assume)
        if a[0] in ("eq0", "ne0", "lt0", "and", "or", "not"):
            v = d(a)
            if v is not None:
                return C(int(v))
        return None
    return subst(t, f)
