"""Property simulation (typestate x interval/nullness/origin environment), one function at a time.

States are kept apart per (block, client typestate, client key); environments of equal keys are joined.
Environment values:  ('i', lo, hi) integers, ('p', frozenset(tokens)) pointers; absent = unknown.
Memory cells (struct fields reached through stable bases, scalar locals) are tracked with strong updates.
"""
import cfg
from effects import call_effects, FORKS

WIDEN = 4


def iv(lo, hi):
    return ("i", lo, hi)


def const(v):
    if v.kind == "int":
        x = v.val
        if v.type == "i1":
            x = 1 if x else 0
        return iv(x, x)
    if v.kind == "null":
        return ("p", frozenset(["null"]))
    return None


def joinv(a, b):
    if a is None or b is None or a[0] != b[0]:
        return None
    if a == b:
        return a
    if a[0] == "i":
        lo = None if a[1] is None or b[1] is None else min(a[1], b[1])
        hi = None if a[2] is None or b[2] is None else max(a[2], b[2])
        if lo is None and hi is None:
            return None
        return iv(lo, hi)
    return ("p", a[1] | b[1])


def widenv(old, new):
    j = joinv(old, new)
    if j is None or j == old or j[0] != "i":
        return j
    lo = old[1] if j[1] == old[1] else (0 if j[1] is not None and j[1] >= 0 else None)
    hi = old[2] if j[2] == old[2] else None
    if lo is None and hi is None:
        return None
    return iv(lo, hi)


def meetv(a, b):
    """None if empty -> returns 'empty'"""
    if a is None:
        return b
    if b is None:
        return a
    if a[0] != b[0]:
        return a
    if a[0] == "i":
        lo = a[1] if b[1] is None else (b[1] if a[1] is None else max(a[1], b[1]))
        hi = a[2] if b[2] is None else (b[2] if a[2] is None else min(a[2], b[2]))
        if lo is not None and hi is not None and lo > hi:
            return "empty"
        return iv(lo, hi)
    s = a[1] & b[1]
    if not s:
        return "empty"
    return ("p", s)


class Env:
    __slots__ = ("v", "m")

    def __init__(self, v=None, m=None):
        self.v = v if v is not None else {}
        self.m = m if m is not None else {}      # cellkey -> (absval or None, frozenset(load insts))

    def copy(self):
        return Env(dict(self.v), dict(self.m))

    def same(self, o):
        return self.v == o.v and self.m == o.m


def liveness(fn):
    c = fn._cache.get("live")
    if c is not None:
        return c
    use, deff = {}, {}
    for b in fn.blocks:
        u, d = set(), set()
        for i in b.insts:
            if i.op != "phi":
                for o in i.ops:
                    if getattr(o, "kind", None) == "inst" and o not in d:
                        u.add(o)
            d.add(i)
        use[b], deff[b] = u, d
    live = {b: set() for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b in reversed(cfg.rpo(fn)):
            out = set()
            for s in b.succs:
                out |= live[s]
                for ph in s.phis:
                    out.discard(ph)
                for ph in s.phis:
                    for v, p in ph.incoming:
                        if p is b and v.kind == "inst":
                            out.add(v)
            # phis of b are defined at entry: keep them live-in so that their value survives pruning
            n = use[b] | (out - deff[b]) | set(b.phis)
            if n != live[b]:
                live[b] = n
                ch = True
    # conditions reach back to their operands: keep operands of cmp chains alive as long as the chain is
    fn._cache["live"] = live
    return live


class Esp:
    def __init__(self, unit, fn, client, max_states=60):
        self.unit = unit
        self.fn = fn
        self.client = client
        self.max_states = max_states
        self.cells = {}
        self.cellloc = {}
        self.bases = set()
        self.live = liveness(fn)
        self.keepalive = self._cond_closure()
        self.overflow = False

    def _cond_closure(self):
        out = set()
        st = []
        for b in self.fn.blocks:
            t = b.term
            if t.op in ("br", "switch") and t.ops:
                st.append(t.ops[0])
        while st:
            v = st.pop()
            if v in out or getattr(v, "kind", None) != "inst":
                continue
            out.add(v)
            if v.op in ("icmp", "and", "or", "xor", "zext", "sext", "trunc", "add", "sub", "phi", "select", "freeze",
                        "fcmp"):
                st.extend(o for o in v.ops if o.kind == "inst")
        return out

    # ---- memory cells -------------------------------------------------------
    def cell(self, p):
        """stable identity of the scalar cell pointed to by p, or None"""
        if p in self.cells:
            return self.cells[p]
        self.cells[p] = None
        k = self._cell(p)
        self.cells[p] = k
        if k is not None:
            self.cellloc.setdefault(k, set()).update(self.unit.of(p))
        return k

    def _cell(self, p):
        p = self.unit.resolve(p)
        if p.kind == "inst" and p.op == "alloca":
            if p.srctype.startswith("["):
                return None
            return (p,)
        if p.kind == "arg" and p.fn is not self.unit.fn and p in self.unit.bind and len(self.unit.bind[p]) == 1:
            return self._cell(self.unit.bind[p][0])
        if p.kind == "global":
            return (p,)
        if p.kind in ("inst", "cexpr") and p.op == "gep" and p.srctype.startswith("%struct"):
            if len(p.ops) < 3 or not p.ops[1].is_int() or p.ops[1].val != 0:
                return None
            b = self._base(p.ops[0])
            if b is None:
                return None
            return b + tuple((p.srctype, o.val) for o in p.ops[2:])
        if p.kind == "inst" and p.op == "gep" and all(o.is_int() and o.val == 0 for o in p.ops[1:]):
            return self._cell(p.ops[0])
        return None

    def _base(self, b):
        b = self.unit.resolve(b)
        if b.kind in ("arg", "global"):
            return (b,)
        if b.kind == "inst" and b.op == "alloca":
            return (b,)
        if b.kind == "inst" and b.op == "call":
            return (b,)
        if b.kind == "inst" and b.op == "load":
            c = self._cell(b.ops[0])
            if c is not None and len(c) < 6:
                return c + ("*",)
        if b.kind == "inst" and b.op == "gep":
            c = self._cell(b)
            if c is not None:
                return c
        if b.kind == "inst":
            self.bases.add(b)        # any other SSA pointer: its cells die when it is recomputed
            return (b,)
        return None

    def kill_locs(self, env, locs, prefix=False):
        if not locs:
            return
        dead = []
        for k in env.m:
            for kl in self.cellloc.get(k, ()):
                hit = kl in locs or kl[0][0] == "unk" or ("unk" in [l[0][0] for l in locs])
                if not hit and prefix:
                    for l in locs:
                        if kl[0] == l[0] and kl[1][:len(l[1])] == l[1]:
                            hit = True
                            break
                if not hit:
                    # a cell reached through a pointer stored in a killed cell
                    for l in locs:
                        if kl[0] == l[0] and len(kl[1]) > len(l[1]) and kl[1][:len(l[1])] == l[1] \
                                and kl[1][len(l[1])] == "*":
                            hit = True
                            break
                if hit:
                    dead.append(k)
                    break
        for k in dead:
            del env.m[k]

    # ---- evaluation ---------------------------------------------------------
    def val(self, v, env):
        if v.kind == "inst":
            r = env.v.get(v)
            if r is None and v.op == "load":
                rv = self.unit.resolve(v)
                if rv is not v and rv.fn is self.fn or rv.kind in ("int", "null"):
                    return self.val(rv, env)
            return r
        if v.kind in ("int", "null"):
            return const(v)
        if v.kind == "arg":
            r = env.v.get(v)
            if r is None:
                return self.client.arg(v)
            return r
        if v.kind in ("global", "func", "cexpr"):
            return ("p", frozenset([("glob", v.name or "c")]))
        return None

    def cmp(self, pred, a, b):
        """three valued comparison of abstract values"""
        if a is None or b is None:
            return None
        if a[0] == "p" and b[0] == "p":
            dis = not (a[1] & b[1]) and "?" not in a[1] and "?" not in b[1]
            if pred in ("eq", "ne") and dis and self._distinct(a[1], b[1]):
                return pred == "ne"
            if pred in ("eq", "ne") and a[1] == b[1] == frozenset(["null"]):
                return pred == "eq"
            return None
        if a[0] != "i" or b[0] != "i":
            return None
        al, ah, bl, bh = a[1], a[2], b[1], b[2]
        if pred in ("ult", "ule", "ugt", "uge"):
            if al is None or bl is None or al < 0 or bl < 0:
                return None
            pred = "s" + pred[1:]

        def lt(xh, yl):
            return xh is not None and yl is not None and xh < yl

        def le(xh, yl):
            return xh is not None and yl is not None and xh <= yl
        if pred == "eq":
            if al is not None and al == ah == bl == bh:
                return True
            if lt(ah, bl) or lt(bh, al):
                return False
            return None
        if pred == "ne":
            r = self.cmp("eq", a, b)
            return None if r is None else not r
        if pred == "slt":
            if lt(ah, bl):
                return True
            if le(bh, al):
                return False
            return None
        if pred == "sle":
            if le(ah, bl):
                return True
            if lt(bh, al):
                return False
            return None
        if pred == "sgt":
            return self.cmp("slt", b, a)
        if pred == "sge":
            return self.cmp("sle", b, a)
        return None

    def _distinct(self, a, b):
        # tokens denote different objects; 'null' differs from any object token
        return True

    def eval(self, i, env):
        op = i.op
        if op == "icmp":
            r = self.cmp(i.pred, self.val(i.ops[0], env), self.val(i.ops[1], env))
            return iv(0, 1) if r is None else (iv(1, 1) if r else iv(0, 0))
        if op in ("add", "sub"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if a and b and a[0] == "i" and b[0] == "i":
                if op == "add":
                    lo = None if a[1] is None or b[1] is None else a[1] + b[1]
                    hi = None if a[2] is None or b[2] is None else a[2] + b[2]
                else:
                    lo = None if a[1] is None or b[2] is None else a[1] - b[2]
                    hi = None if a[2] is None or b[1] is None else a[2] - b[1]
                if lo is None and hi is None:
                    return None
                return iv(lo, hi)
            return None
        if op in ("mul", "shl"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            if op == "mul" and b and b[0] == "i" and (b[1] is None or b[1] != b[2]):
                a, b = b, a
            if a and b and a[0] == b[0] == "i" and b[1] is not None and b[1] == b[2] and 0 <= b[1] < 64:
                k = b[1] if op == "mul" else 1 << b[1]
                return iv(None if a[1] is None else a[1] * k, None if a[2] is None else a[2] * k)
            return None
        if op in ("zext", "sext", "trunc", "freeze"):
            a = self.val(i.ops[0], env)
            if op == "zext" and i.ops[0].type == "i1" and a is None:
                return iv(0, 1)
            if a and a[0] == "i":
                if op == "zext" and (a[1] is None or a[1] < 0):
                    return iv(0, None)
                if op == "trunc":
                    w = int(i.type[1:])
                    if w == 1:
                        if a[1] is not None and a[2] is not None and 0 <= a[1] and a[2] <= 1:
                            return a
                        return iv(0, 1)
                    if a[1] is None or a[2] is None or a[1] < -(1 << (w - 1)) or a[2] >= (1 << (w - 1)):
                        return None
                return a
            return None
        if op in ("and", "or", "xor"):
            a, b = self.val(i.ops[0], env), self.val(i.ops[1], env)
            ok = all(x and x[0] == "i" and x[1] is not None and x[2] is not None and 0 <= x[1] and x[2] <= 1
                     for x in (a, b))
            if ok:
                if op == "and":
                    return iv(min(a[1], b[1]), min(a[2], b[2]))
                if op == "or":
                    return iv(max(a[1], b[1]), max(a[2], b[2]))
                if a[1] == a[2] and b[1] == b[2]:
                    x = a[1] ^ b[1]
                    return iv(x, x)
                return iv(0, 1)
            if op == "and":
                for x in (a, b):
                    if x == iv(0, 0):
                        return x
            if i.type == "i1":
                return iv(0, 1)
            return None
        if op == "select":
            c = self.val(i.ops[0], env)
            if c == iv(1, 1):
                return self.val(i.ops[1], env)
            if c == iv(0, 0):
                return self.val(i.ops[2], env)
            return joinv(self.val(i.ops[1], env), self.val(i.ops[2], env))
        if op == "gep":
            return self.val(i.ops[0], env)
        if op == "alloca":
            return ("p", frozenset([("local", i)]))
        if op == "fcmp":
            return iv(0, 1)
        if op in ("bitcast",):
            return self.val(i.ops[0], env)
        return None

    def setv(self, env, v, x):
        if x is None:
            env.v.pop(v, None)
        else:
            env.v[v] = x

    def refine_value(self, env, v, x):
        """meet value of v with x; returns False if infeasible"""
        if v.kind in ("int", "null"):
            return meetv(const(v), x) != "empty"
        old = self.val(v, env)
        n = meetv(old, x)
        if n == "empty":
            return False
        if v.kind in ("inst", "arg"):
            env.v[v] = n
        if v.kind == "inst":
            if v.op == "load":
                rv = self.unit.resolve(v)
                if rv is not v and rv.kind in ("inst", "arg") and rv.fn is self.fn:
                    if not self.refine_value(env, rv, x):
                        return False
                k = self.cell(v.ops[0])
                if k is not None and k in env.m and v in env.m[k][1]:
                    mv, links = env.m[k]
                    env.m[k] = (n, links)
                    for l in links:
                        env.v[l] = n
            elif v.op in ("zext", "sext") or (v.op == "trunc"):
                o = v.ops[0]
                if o.type == "i1" and n[0] == "i":
                    if n[1] is not None and n[1] >= 1:
                        return self.refine(env, o, True)
                    if n[2] is not None and n[2] <= 0:
                        return self.refine(env, o, False)
                elif n[0] == "i":
                    if v.op == "trunc" and v.type == "i1":
                        ov = self.val(o, env)
                        if not (ov and ov[1] is not None and ov[2] is not None and ov[1] >= 0 and ov[2] <= 1):
                            # bool loads: i8 holding 0/1
                            if o.type != "i8":
                                return True
                    elif v.op == "trunc":
                        return True
                    return self.refine_value(env, o, n)
            elif v.op == "add" and n[0] == "i" and v.ops[1].is_int():
                c = v.ops[1].val
                return self.refine_value(env, v.ops[0], iv(None if n[1] is None else n[1] - c,
                                                           None if n[2] is None else n[2] - c))
            elif v.op == "sub" and n[0] == "i" and v.ops[1].is_int():
                c = v.ops[1].val
                return self.refine_value(env, v.ops[0], iv(None if n[1] is None else n[1] + c,
                                                           None if n[2] is None else n[2] + c))
            elif v.op == "icmp" and v.type == "i1" and n[0] == "i":
                if n[1] == 1:
                    return self.refine(env, v, True)
                if n[2] == 0:
                    return self.refine(env, v, False)
        return True

    def refine(self, env, c, truth):
        if c.kind == "int":
            return bool(c.val) == truth
        if c.kind != "inst":
            return True
        if c.type == "i1":
            n = meetv(env.v.get(c), iv(1, 1) if truth else iv(0, 0))
            if n == "empty":
                return False
            env.v[c] = n
        if c.op == "icmp":
            a, b = c.ops
            av, bv = self.val(a, env), self.val(b, env)
            pred = c.pred if truth else {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
                                         "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt"}[c.pred]
            r = self.cmp(pred, av, bv)
            if r is False:
                return False
            if a.type == "ptr":
                if pred == "eq":
                    if b.kind == "null":
                        if av is None:
                            return self.refine_value(env, a, ("p", frozenset(["null"])))
                        return self.refine_value(env, a, ("p", frozenset(["null"])))
                    if av and bv:
                        return self.refine_value(env, a, bv) and self.refine_value(env, b, av)
                else:
                    if b.kind == "null" and av is not None:
                        s = av[1] - {"null"}
                        if not s:
                            return False
                        return self.refine_value(env, a, ("p", s))
                return True
            if pred in ("ult", "ule", "ugt", "uge"):
                if av and bv and av[1] is not None and av[1] >= 0 and bv[1] is not None and bv[1] >= 0:
                    pred = "s" + pred[1:]
                else:
                    return True
            if pred == "eq":
                ok = True
                if bv:
                    ok = self.refine_value(env, a, bv)
                if ok and av:
                    ok = self.refine_value(env, b, av)
                return ok
            if pred == "ne":
                for x, xv, yv in ((a, av, bv), (b, bv, av)):
                    if yv and yv[0] == "i" and yv[1] is not None and yv[1] == yv[2]:
                        c0 = yv[1]
                        if xv and xv[0] == "i":
                            lo, hi = xv[1], xv[2]
                            if lo == c0:
                                lo = c0 + 1
                            if hi == c0:
                                hi = c0 - 1
                            if lo is not None and hi is not None and lo > hi:
                                return False
                            if (lo, hi) != (xv[1], xv[2]):
                                if not self.refine_value(env, x, iv(lo, hi)):
                                    return False
                        elif x.kind == "inst" and x.op in ("zext", "trunc") and x.ops[0].type in ("i1", "i8") and c0 == 0:
                            if not self.refine_value(env, x, iv(1, 1) if x.ops[0].type == "i1" else iv(1, None)):
                                return False
                        elif c0 == 0 and x.type == "i8":
                            pass
                return True
            if pred == "sgt":
                a, b, av, bv, pred = b, a, bv, av, "slt"
            elif pred == "sge":
                a, b, av, bv, pred = b, a, bv, av, "sle"
            d = 1 if pred == "slt" else 0
            ok = True
            if bv and bv[0] == "i" and bv[2] is not None:
                ok = self.refine_value(env, a, iv(None, bv[2] - d))
            if ok and av and av[0] == "i" and av[1] is not None:
                ok = self.refine_value(env, b, iv(av[1] + d, None))
            return ok
        if c.op == "and":
            if truth:
                return self.refine(env, c.ops[0], True) and self.refine(env, c.ops[1], True)
            for x, y in ((0, 1), (1, 0)):
                if self.val(c.ops[x], env) == iv(1, 1):
                    return self.refine(env, c.ops[y], False)
            return True
        if c.op == "or":
            if not truth:
                return self.refine(env, c.ops[0], False) and self.refine(env, c.ops[1], False)
            for x, y in ((0, 1), (1, 0)):
                if self.val(c.ops[x], env) == iv(0, 0):
                    return self.refine(env, c.ops[y], True)
            return True
        if c.op == "xor" and c.ops[1].is_int() and c.ops[1].val in (1, -1):
            return self.refine(env, c.ops[0], not truth)
        if c.op == "trunc":
            return self.refine_value(env, c.ops[0], iv(1, 1) if truth else iv(0, 0)) if c.ops[0].type == "i8" else True
        if c.op == "freeze":
            return self.refine(env, c.ops[0], truth)
        return True

    # ---- driver -------------------------------------------------------------
    def run(self):
        fn = self.fn
        cfg.rpo(fn)
        self.heads = {s for b in fn.blocks if hasattr(b, "rpo") for s in b.succs if s.rpo <= b.rpo}
        env = Env()
        work = []
        self.at = {}      # (block, q, key) -> env
        self.count = {}
        for q in self.client.init(self, env):
            self._push(work, fn.entry, q, env.copy())
        steps = 0
        while work:
            work.sort(key=lambda s: -s[0].rpo)
            st = work.pop()
            b, q, key = st
            env = self.at[st].copy()
            steps += 1
            if steps > 20000:
                self.overflow = True
                return self
            self._block(work, b, q, env)
        return self

    def _push(self, work, b, q, env):
        live = self.live[b]
        for v in list(env.v):
            if getattr(v, "kind", None) == "inst" and v not in live and v not in self.keepalive \
                    and not self.client.keep(v):
                del env.v[v]
        key = self.client.key(q, env)
        st = (b, q, key)
        old = self.at.get(st)
        if old is None:
            n = sum(1 for s in self.at if s[0] is b)
            if n >= self.max_states:
                # too many: fall back on any existing state with the same q, else keep
                same = [s for s in self.at if s[0] is b and s[1] == q]
                if same:
                    st = same[0]
                    old = self.at[st]
        if old is None:
            self.at[st] = env
            if st not in work:
                work.append(st)
            return
        c = self.count[st] = self.count.get(st, 0) + 1
        comb = widenv if c > WIDEN and (b in self.heads or c > 50 * WIDEN) else joinv
        nv = {}
        for k, x in old.v.items():
            y = env.v.get(k)
            if y is not None:
                r = comb(x, y)
                if r is not None:
                    nv[k] = r
        nm = {}
        for k, (x, links) in old.m.items():
            if k in env.m:
                y, l2 = env.m[k]
                r = comb(x, y) if x is not None and y is not None else None
                nm[k] = (r, links & l2)
        new = Env(nv, nm)
        if not new.same(old):
            self.at[st] = new
            if st not in work:
                work.append(st)

    def _block(self, work, b, q, env):
        states = [(q, env)]
        for i in b.insts:
            if i.op == "phi":
                continue
            nxt = []
            for (q, env) in states:
                if i is b.term:
                    nxt.append((q, env))
                    continue
                self.step(i, env)
                for q2, env2 in self.client.inst(self, q, i, env):
                    nxt.append((q2, env2))
            states = nxt
        t = b.term
        for (q, env) in states:
            if t.op == "ret":
                self.client.ret(self, q, t, env)
                continue
            if t.op == "unreachable":
                continue
            if t.op == "br" and len(t.targets) == 2:
                for k in (0, 1):
                    e = env.copy()
                    if self.refine(e, t.ops[0], k == 0):
                        self._edge(work, b, t.targets[k], q, e)
            elif t.op == "switch":
                v = t.ops[0]
                av = self.val(v, env)
                for cv, s in t.cases:
                    e = env.copy()
                    if self.refine_value(e, v, iv(cv, cv)):
                        self._edge(work, b, s, q, e)
                if not (av and av[0] == "i" and av[1] is not None and av[1] == av[2]
                        and any(cv == av[1] for cv, _ in t.cases)):
                    self._edge(work, b, t.targets[0], q, env.copy())
            else:
                for s in b.succs:
                    self._edge(work, b, s, q, env.copy())

    def _edge(self, work, b, s, q, env):
        vals = []
        for ph in s.phis:
            for v, p in ph.incoming:
                if p is b:
                    vals.append((ph, self.val(v, env)))
                    break
        for ph, x in vals:
            self.setv(env, ph, x)
            if ph in self.bases:
                self.kill_base(env, ph)
            for k in list(env.m):
                mv, links = env.m[k]
                if ph in links:
                    env.m[k] = (mv, links - {ph})
        # values computed from the phis in an earlier iteration are stale
        q = self.client.edge(self, q, b, s, env)
        if q is not None:
            self._push(work, s, q, env)

    def kill_base(self, env, b):
        for k in list(env.m):
            if k[0] is b:
                del env.m[k]

    def step(self, i, env):
        op = i.op
        if i in self.bases:
            self.kill_base(env, i)
        if op == "store":
            k = self.cell(i.ops[1])
            locs = self.unit.of(i.ops[1])
            x = self.val(i.ops[0], env)
            self.kill_locs(env, {l for l in locs})
            if k is not None:
                env.m[k] = (x, frozenset())
            return
        if op == "load":
            k = self.cell(i.ops[0])
            x = None
            if k is not None:
                if k in env.m:
                    mv, links = env.m[k]
                    env.m[k] = (mv, links | {i})
                    x = mv
                else:
                    x = self.client.load(self, i, env)
                    env.m[k] = (x, frozenset([i]))
            else:
                x = self.client.load(self, i, env)
            self.setv(env, i, x)
            return
        if op == "call":
            n = i.callee_name()
            eff = call_effects(self.unit, i)
            if eff:
                self.kill_locs(env, eff, prefix=True)
            if i.type != "void":
                # results of an earlier execution of this call die
                for k in list(env.m):
                    mv, links = env.m[k]
                    if any(x is i for x in k):
                        del env.m[k]
                self.setv(env, i, self.client.call(self, i, env))
            return
        if op in ("atomicrmw", "cmpxchg"):
            self.kill_locs(env, self.unit.of(i.ops[0]))
            self.setv(env, i, None)
            return
        if i.type == "void":
            return
        self.setv(env, i, self.eval(i, env))


class Client:
    """default hooks"""

    def init(self, esp, env):
        return [()]

    def key(self, q, env):
        return ()

    def keep(self, v):
        return False

    def arg(self, v):
        if v.type == "ptr":
            return None
        return None

    def load(self, esp, i, env):
        return None

    def call(self, esp, i, env):
        return None

    def inst(self, esp, q, i, env):
        return [(q, env)]

    def edge(self, esp, q, b, s, env):
        return q

    def ret(self, esp, q, t, env):
        pass
