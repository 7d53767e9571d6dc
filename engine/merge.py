"""Joining variant of the path-wise interpreter: states that agree on what is still live are merged at joins (weak join of facts)."""
import cfg
import linear as ln
from linear import add, scale, is_const, cval, tight
from shabuf import Exec, NewCut


def project(facts, live, limit=120):
    """consequences of the facts over the live atoms (dropping what would grow too much is sound)"""
    facts = ln.eliminate_dead(facts, live)
    cur = {}

    def put(d, f):
        f = tight(f)
        if is_const(f):
            return
        v = frozenset((x, c) for x, c in f.items() if x != 1)
        if v not in d or cval(f) < d[v]:
            d[v] = cval(f)
    for f in facts:
        put(cur, f)
    while True:
        pos, neg = {}, {}
        for v in cur:
            for x, c in v:
                if x not in live:
                    (pos if c > 0 else neg).setdefault(x, []).append(v)
        dead = set(pos) | set(neg)
        if not dead:
            break
        x = min(dead, key=lambda x: (len(pos.get(x, ())) * len(neg.get(x, ())), str(x)))
        new = {v: c for v, c in cur.items() if not any(y == x for y, _ in v)}
        if len(pos.get(x, ())) * len(neg.get(x, ())) + len(new) <= limit:
            for p in pos.get(x, ()):
                for n in neg.get(x, ()):
                    dp, dn = dict(p), dict(n)
                    a, b = dp[x], -dn[x]
                    r = {}
                    for y, c in dp.items():
                        r[y] = r.get(y, 0) + b * c
                    for y, c in dn.items():
                        r[y] = r.get(y, 0) + a * c
                    r = {y: c for y, c in r.items() if c}
                    k = b * cur[p] + a * cur[n]
                    if k:
                        r[1] = k
                    put(new, r)
        cur = new
    out = []
    for v, c in cur.items():
        f = dict(v)
        if c:
            f[1] = c
        out.append(f)
    return out


class Rename:
    """canonical spelling of a state: fresh atoms numbered in order of appearance"""

    def __init__(self):
        self.map = {}

    def atom(self, x):
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], int):
            if x not in self.map:
                self.map[x] = len(self.map)
            return ("#", self.map[x])
        return x

    def form(self, f):
        known = [(x, c) for x, c in f.items() if x == 1 or x in self.map or not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], int))]
        rest = sorted(((x, c) for x, c in f.items() if not (x == 1 or x in self.map or (x, c) in known)), key=lambda t: (t[1], str(t[0])))
        return frozenset((self.atom(x), c) for x, c in known + rest)

    def any(self, v):
        if isinstance(v, dict):
            return self.form(v)
        if isinstance(v, tuple):
            return tuple(self.any(x) for x in v)
        return v


def atoms_of(v, out):
    if isinstance(v, dict):
        out.update(x for x in v if x != 1)
    elif isinstance(v, tuple):
        for x in v:
            atoms_of(x, out)


class Merge(Exec):
    need = frozenset()

    def liveness(self):
        """values of self.need that may still be used, on entry of each block (phis of the block excluded)"""
        fn = self.fn
        live = {b: set() for b in fn.blocks}
        gen, kill = {}, {}
        for b in fn.blocks:
            g, k = set(), set()
            for i in b.insts:
                if i.op != "phi" and (i in self.need or self.event(i) or i is b.term):
                    for o in i.ops:
                        if o.kind == "inst" and o in self.need and o not in k:
                            g.add(o)
                k.add(i)
            gen[b], kill[b] = g, k
        ch = True
        while ch:
            ch = False
            for b in reversed(cfg.rpo(fn)):
                out = set()
                for s in b.succs:
                    out |= live[s] - set(s.phis)
                    for p in s.phis:
                        if p in self.need:
                            out |= {v for v, pb in p.incoming if pb is b and v.kind == "inst" and v in self.need}
                n = gen[b] | (out - kill[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        cfg.rpo(fn)

    def shrink(self, x, st):
        """forget what is dead on entry of block x; returns the canonical key of the rest and the renaming"""
        keep = self.live[x] | {p for p in x.phis if p in self.need}
        for v in list(st.env):
            if v.kind == "inst" and v not in keep:
                del st.env[v]
        la = set()
        vals = sorted(((v.block.rpo, v.block.insts.index(v), v) for v in st.env if v.kind == "inst"), key=lambda t: t[:2])
        for _, _, v in vals:
            atoms_of(st.env[v], la)
        for k in st.mem:
            atoms_of(st.mem[k][1], la)
        for k in st.g:
            atoms_of(st.g[k], la)
        st.facts = project(st.facts, la | self.fixed(st))
        R = Rename()
        key = (tuple((v.id, R.any(st.env[v])) for _, _, v in vals),
               tuple((str(k), R.any(st.mem[k][1])) for k in sorted(st.mem, key=str)),
               tuple((k, R.any(st.g[k])) for k in sorted(st.g)))
        return key, R

    def fixed(self, st):
        return set()

    def go(self, b, frm, st, open_, L=None):
        pend = {}
        order = {}

        def push(x, frm, s, op):
            if frm is not None:
                self.enter(s, x, frm)
            Lb = self.loops.get(x)
            inner = False
            if Lb is not None and x not in self.skips and frm is not None:
                pk = (x, self.part(Lb, s))
                if frm in Lb.blocks:
                    if pk in op:
                        op[pk](s)
                        return
                    if x not in self.cuts:
                        raise NewCut(x)
            if len(x.preds) > 1 and frm is not None:
                self.cl.summary(self, s)
                key, R = self.shrink(x, s)
                key = (key, tuple(sorted(((str(k), id(f)) for k, f in op.items()))))
                for s2, k2, R2, o2 in pend.setdefault(x, []):
                    if k2 == key:
                        self.join(s2, R2, s, R)
                        return
                pend[x].append((s, key, R, op))
            else:
                pend.setdefault(x, []).append((s, None, None, op))
        pend[b] = [(st, None, None, open_)]
        first = L is not None
        while pend:
            x = min(pend, key=lambda y: y.rpo)
            for s, _, _, op in pend.pop(x):
                if x in self.loops and x not in self.skips and x in self.cuts and not first:
                    pk = (x, self.part(self.loops[x], s))
                    s = self.cut(self.loops[x], x, s, op, pk)
                    op = dict(op)
                    op[pk] = noop
                for y, s2 in self.flow(x, s, op):
                    if L is None or y in L.blocks:
                        push(y, x, s2, op)
            first = False

    def cut(self, L, h, st, open_, pk):
        """as Exec.cut, remembering the summaries of loops whose turns concern no other loop under way"""
        if any(k[0] is h for k in open_):
            return Exec.cut(self, L, h, st, open_, pk)
        key, R = self.shrink(h, st)
        fk = frozenset(sorted((R.form(f) for f in sorted(st.facts, key=lambda f: str(sorted(map(str, f.items()))))), key=str))
        full = (h, pk, key, fk)
        memo = self.__dict__.setdefault("memo", {})
        if full not in memo:
            res = Exec.cut(self, L, h, st.copy(), open_, pk)
            memo[full] = (res.copy(), {k: v for v, k in R.map.items()})
            self.misses = getattr(self, "misses", 0) + 1
            return res
        self.hits = getattr(self, "hits", 0) + 1
        res, back = memo[full]
        now = {k: v for v, k in R.map.items()}
        ren = {back[k]: now[k] for k in back}

        def name(x):
            if not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], int)):
                return x
            if x not in ren:
                ren[x] = self.fresh(x[0])
            return ren[x]

        def tr(v):
            if isinstance(v, dict):
                return {name(x): c for x, c in v.items()}
            return tuple(tr(x) for x in v) if isinstance(v, tuple) else v
        out = res.copy()
        out.env = {k: tr(v) for k, v in res.env.items()}
        out.mem = {k: (v[0], tr(v[1])) for k, v in res.mem.items()}
        out.facts = [tr(f) for f in res.facts]
        out.g = {k: tr(v) for k, v in res.g.items()}
        return out

    def join(self, a, ra, b, rb):
        """weaken a so that it also covers b"""
        back = {v: k for k, v in ra.map.items()}
        ren = {k: back[v] for k, v in rb.map.items() if v in back}
        fb = []
        for f in b.facts:
            fb.append({ren.get(x, x): c for x, c in f.items()})
        kb = {ln.key(f) for f in fb}
        ka = {ln.key(f) for f in a.facts}
        out = [f for f in a.facts if ln.key(f) in kb or ln.prove(fb, f)]
        ko = {ln.key(f) for f in out}
        out += [f for f in fb if ln.key(f) not in ko and ln.key(f) not in ka and ln.prove(a.facts, f)]
        a.facts = out


def noop(s):
    pass
