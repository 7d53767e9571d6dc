"""Acyclic path enumeration: through one trip of a loop, or between two points of a function."""
from itertools import product
import cfg
from sym import C, add, eqn, neg_cond, to_poly, key, walk, subst
from ranges import facts


def strip(v):
    while v.kind == "inst" and v.op in ("sext", "zext", "trunc", "freeze", "bitcast"):
        v = v.ops[0]
    return v


CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b,
       "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}


class Path:
    def __init__(self, blocks, facts, end):
        self.blocks, self.facts, self.end = blocks, facts, end      # end: block reached (loop header, exit target, None)
        self.pred = {b: blocks[k - 1] if k else None for k, b in enumerate(blocks)}
        self.set = set(blocks)

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def resolve(self, v, at=None):
        """value v with the phis of the path's blocks replaced by what flowed in along the path"""
        v = strip(v)
        n = 0
        while v.kind == "inst" and v.op == "phi" and v.block in self.pred and self.pred[v.block] is not None and n < 50:
            n += 1
            p = self.pred[v.block]
            for x, q in v.incoming:
                if q is p:
                    v = strip(x)
                    break
            else:
                break
        return v

    def out(self, ph):
        """value of header phi ph at the end of the path"""
        last = self.blocks[-1]
        for x, q in ph.incoming:
            if q is last:
                return x
        return None

    def delta(self, v, base):
        """v - base as a constant, along the path; None if unknown"""
        k = 0
        n = 0
        while n < 50:
            n += 1
            v = self.resolve(v)
            if v is base:
                return k
            if v.kind == "inst" and v.op in ("add", "sub") and v.ops[1].kind == "int":
                k += v.ops[1].val if v.op == "add" else -v.ops[1].val
                v = v.ops[0]
            elif v.kind == "inst" and v.op == "add" and v.ops[0].kind == "int":
                k += v.ops[0].val
                v = v.ops[1]
            else:
                return None
        return None

    def follow(self, v):
        """resolve() without dropping conversions of truth values"""
        while True:
            if v.kind == "inst" and v.op in ("sext", "zext", "trunc", "freeze", "bitcast") and v.ops[0].type != "i1":
                v = v.ops[0]
                continue
            if v.kind == "inst" and v.op == "phi":
                p = self.pred.get(v.block)
                x = [x for x, q in v.incoming if q is p] if p is not None else []
                if x:
                    v = x[0]
                    continue
            return v

    def deltas(self, S, v, base):
        """v - base along the path as [(conditions, constant)], splitting on truth values used as numbers; None if unknown"""
        r = self._vals(S, v, base, 0)
        if r is None or any(c != 1 for _, c, _ in r):
            return None
        return [(f, k) for f, _, k in r]

    def _vals(self, S, v, base, n):
        v = self.follow(v)
        if n > 30:
            return None
        if v is base:
            return [((), 1, 0)]
        if v.kind == "int":
            return [((), 0, v.val)]
        if v.kind != "inst":
            return None
        if v.op in ("add", "sub"):
            a, b = self._vals(S, v.ops[0], base, n + 1), self._vals(S, v.ops[1], base, n + 1)
            if a is None or b is None:
                return None
            s = 1 if v.op == "add" else -1
            return self._merge([(f + g, x + s * y, k + s * l) for f, x, k in a for g, y, l in b])
        if v.op == "select" or v.op in ("zext", "sext") and v.ops[0].type == "i1":
            c = self.follow(v.ops[0])
            if v.op == "select":
                a, b = self._vals(S, v.ops[1], base, n + 1), self._vals(S, v.ops[2], base, n + 1)
            else:
                a, b = [((), 0, 1 if v.op == "zext" else -1)], [((), 0, 0)]
            if a is None or b is None:
                return None
            if c.kind == "int":
                return a if c.val & 1 else b
            ct = S.cond(S.t(c))
            t, e = tuple(facts(ct, True)), tuple(facts(ct, False))
            return self._merge([(t + f, x, k) for f, x, k in a] + [(e + f, x, k) for f, x, k in b])
        return None

    def _merge(self, rows):
        out = []
        for f, x, k in rows:
            if any(contradicts(p, q) for p in f for q in f if p is not q) or any(
                    contradicts(p, q) for p in f for q in self.facts):
                continue
            out.append((f, x, k))
        return out

    def lin(self, v):
        """v = (root value, constant) along the path"""
        k = 0
        n = 0
        while n < 50:
            n += 1
            v = self.resolve(v)
            if v.kind == "inst" and v.op in ("add", "sub") and v.ops[1].kind == "int":
                k += v.ops[1].val if v.op == "add" else -v.ops[1].val
                v = v.ops[0]
            elif v.kind == "inst" and v.op == "add" and v.ops[0].kind == "int":
                k += v.ops[0].val
                v = v.ops[1]
            else:
                return v, k
        return v, k


def contradicts(a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == "eq0" and y[0] == "lt0":
            for e in (x[1], add(C(0), x[1], -1)):
                d, k = to_poly(add(y[1], e, -1))
                if not d and k >= 0:
                    return True
        if x[0] == "lt0" and y[0] == "lt0":
            d, k = to_poly(add(x[1], y[1]))
            if not d and k >= -1:
                return True
        if x[0] in ("eq0", "ne0") and y[0] == ("ne0" if x[0] == "eq0" else "eq0") and x[1] == y[1]:
            return True
    return False


def paths(S, start, stop, inside=None, limit=3000, through=None, opaque=()):
    """acyclic paths from block `start`; a path ends on entering a block of `stop`, on leaving `inside`, or at a return.
    Branch conditions that are phis are decided along the path."""
    out = []
    stack = [((start,), ())]
    n = 0
    while stack:
        bs, fs = stack.pop()
        n += 1
        if n > limit:
            return None
        b = bs[-1]
        t = b.term
        P = Path(list(bs), list(fs), None)
        for h in opaque:
            if h in P.pred:
                P.pred[h] = None
        if t.op == "ret":
            out.append(P)
            continue
        if not b.succs:
            continue
        nxt = []
        if t.op == "br" and len(t.targets) == 2 and t.targets[0] is not t.targets[1]:
            c = P.resolve(t.ops[0])
            flip = False
            while c.kind == "inst" and c.op == "xor" and c.ops[1].kind == "int":
                flip = flip != bool(c.ops[1].val & 1)
                c = P.resolve(c.ops[0])
            if c.kind == "inst" and c.op == "icmp":
                x, y = P.resolve(c.ops[0]), P.resolve(c.ops[1])
                if x.kind == "int" and y.kind == "int" and c.pred in CMP:
                    nxt = [(t.targets[0 if CMP[c.pred](x.val, y.val) != flip else 1], ())]
            if nxt:
                pass
            elif c.kind == "int":
                taken = bool(c.val & 1) != flip
                nxt = [(t.targets[0 if taken else 1], ())]
            else:
                ct = S.cond(S.t(c))
                if flip:
                    ct = neg_cond(ct)
                for k in (0, 1):
                    nxt.append((t.targets[k], tuple(facts(ct, k == 0))))
        elif t.op == "switch":
            v = P.resolve(t.ops[0])
            if v.kind == "int":
                nxt = [([x for k, x in t.cases if k == v.val] + [t.targets[0]])[:1]]
                nxt = [(nxt[0][0], ())]
            else:
                e = S.t(t.ops[0])
                nxt = [(s, tuple(facts(eqn(add(e, C(k), -1)), True))) for k, s in t.cases]
                nxt.append((t.targets[0], tuple(x for k, s in t.cases for x in facts(eqn(add(e, C(k), -1)), False))))
        else:
            nxt = [(s, ()) for s in dict.fromkeys(b.succs)]
        for s, more in nxt:
            if s.term.op == "unreachable":
                continue
            if any(contradicts(x, y) for x in more for y in fs):
                continue
            f2 = fs + tuple(x for x in more if x not in fs)
            if s in stop or (inside is not None and s not in inside):
                out.append(Path(list(bs), list(f2), s))
            elif s in bs:
                continue
            else:
                stack.append((bs + (s,), f2))
    return out


def trips(S, L, limit=3000, opaque=()):
    """paths of one trip round loop L (ending back at the header); inner loops run at most one trip
    opaque: headers of inner loops, whose values are not those before the loop"""
    ps = paths(S, L.header, {L.header}, L.blocks, limit, opaque=opaque)
    return None if ps is None else [p for p in ps if p.end is L.header]


def canon(c):
    """(atom, polarity)"""
    n = neg_cond(c)
    return (c, True) if key(c) <= key(n) else (n, False)


def table(cases, fixed=lambda a: None):
    """cases: [(facts, result)] -> function from assignments of atoms to the set of results; returns (atoms, eval)"""
    rows = []
    atoms = set()
    for fs, r in cases:
        lits = {}
        ok = True
        for c in fs:
            a, pol = canon(c)
            f = fixed(a)
            if f is not None:
                if f != pol:
                    ok = False
                continue
            if lits.get(a, pol) != pol:
                ok = False
            lits[a] = pol
        if ok:
            rows.append((lits, r))
            atoms |= set(lits)

    def ev(asg):
        return {r for lits, r in rows if all(asg.get(a) == p for a, p in lits.items())}
    return atoms, ev


def same_function(c1, c2, fixed=lambda a: None, limit=10):
    """do two case lists describe the same function of their conditions?  (assignment that differs) or None"""
    a1, e1 = table(c1, fixed)
    a2, e2 = table(c2, fixed)
    at = sorted(a1 | a2, key=key)
    if len(at) > limit:
        return ("too many conditions",)
    for vals in product((True, False), repeat=len(at)):
        asg = dict(zip(at, vals))
        r1, r2 = e1(asg), e2(asg)
        if r1 and r2 and r1 != r2:
            return asg
    return None
