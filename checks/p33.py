"""P33: certificates are made and checked by the documented protocol."""
from common import *
import nest
import sym
from sym import C, add, el_split, mul, neg_cond, show, subst, to_poly, walk
from nest import Store
from p27 import Bad, Mode, arg, at, fld, implied, loc, modes
from p28 import Check28, absent
from ranges import loop_ranges

CERT, LU = "spasm_rank_certificate", "spasm_lu"
KK = ("kk",)
DRAWS = ("spasm_prng_ZZp",)
QUIET = {"free", "spasm_malloc", "spasm_calloc", "malloc", "calloc", "fprintf", "printf", "fflush", "spasm_wtime",
         "spasm_human_format", "__assert_fail", "snprintf", "fputs", "fputc", "putc", "puts"}


class Vectors:
    """contents of arrays, as values: equal contents get equal numbers"""

    def __init__(self):
        self.ids, self.desc = {}, []

    def of(self, d):
        if d not in self.ids:
            self.ids[d] = len(self.desc)
            self.desc.append(d)
        return ("vec", self.ids[d])

    def all(self, n, val):
        return self.of(("all", n, val))

    def put(self, prev, n, idx, val):
        return self.of(("put", prev, n, idx, val))

    def lst(self, n, cond, val):
        return self.of(("list", n, cond, val))

    def pick(self, n, member, inval, outval):
        return self.of(("pick", n, member, inval, outval))

    def elt(self, v, i):
        d = self.desc[v[1]]
        if d[0] == "all":
            return subst(d[2], lambda x: i if x == KK else None)
        return ("elt", v, i)

    def show(self, v, depth=0):
        if v is None:
            return "nothing"
        d = self.desc[v[1]]
        if depth > 3:
            return "..."
        s = lambda t: self.term(t, depth + 1)
        if d[0] == "all":
            return "%s for k < %s" % (s(d[2]), s(d[1]))
        if d[0] == "put":
            return "[%s], then at %s: %s for k < %s" % (self.show(d[1], depth + 1), s(d[3]), s(d[4]), s(d[2]))
        if d[0] == "list":
            return "the k < %s where %s" % (s(d[1]), ", ".join(s(c) for c in d[2]))
        if d[0] == "pick":
            return "%s at %s, %s elsewhere, over %s places" % (s(d[3]), s(d[2][1]), s(d[4]), s(d[1]))
        if d[0] in ("solve", "xApy"):
            return "%s(%s)" % (d[0], "; ".join(self.show(x, depth + 1) if x and x[0] == "vec" else s(x) for x in d[1:]))
        return d[0]

    def term(self, t, depth=0):
        if t is None:
            return "-"
        if t == KK:
            return "k"
        if t[0] == "elt":
            return "(%s)[%s]" % (self.show(t[1], depth + 1), self.term(t[2], depth + 1))
        if t[0] == "draw":
            return "draw %d of kind %s" % (t[1], t[2])
        if t[0] == "poly":
            return " + ".join(["%s*%s" % (c, "*".join(self.term(a, depth) for a in m)) for m, c in t[1]] + [str(t[2])])
        return show(t)


def split(q):
    """(facts, stores, next, draws) of a trip, conditional values taken apart"""
    out, work = [], [(tuple(q.facts), [(s, s.addr, s.val) for s in q.stores()], dict(q.next))]
    while work:
        fs, st, nx = work.pop()
        sel = None
        for t in [x for s in st for x in s[1:]] + list(nx.values()):
            for x in walk(t):
                if x[0] == "sel":
                    sel = x
                    break
            if sel:
                break
        if sel is None:
            out.append((fs, st, nx))
            continue
        for c, v in ((sel[1], sel[2]), (neg_cond(sel[1]), sel[3])):
            f = lambda x: v if x == sel else None
            if any(implied(neg_cond(c), [g]) for g in fs):
                continue
            work.append((fs + (c,), [(s, subst(a, f), subst(b, f)) for s, a, b in st], {k: subst(b, f) for k, b in nx.items()}))
    return out


class Run:
    """contents of every array along one path through the function"""

    def __init__(self, op, V, p):
        self.op, self.T, self.V, self.p = op, op.T, V, p
        self.vec, self.alias, self.cell = {}, {}, {}
        self.phase = 0
        self.compares = []
        self.seeds = []
        self.ctx = None
        self.early = False
        self.calls = {}
        for e in p.events:
            if isinstance(e, Store):
                self.store(e)
            elif e[0] == "call":
                self.call(e)
            else:
                self.loop(e)
                if self.early:
                    break

    def get(self, base):
        if base in self.vec:
            return self.vec[base]
        if base[0] == "call" and base[1] in ("spasm_calloc", "calloc"):
            a = [self.T.norm(self.op.S.t(o)) for o in base[2].ops]
            n = a[0] if a[1][0] == "c" else a[1]
            return self.V.all(n, C(0))
        return self.V.of(("of", base))

    def low(self, t):
        """the term with elements of known arrays replaced by what they hold"""
        def f(x):
            if x[0] in ("ld", "ldv"):
                y = ("ld", subst(x[1], f))
                if y in self.alias:
                    return self.alias[y]
                b, i = el_split(y[1])
                b2 = self.alias.get(b, b)
                if b2 in self.vec or b2[0] == "call" and b2[1] in ("spasm_calloc", "calloc"):
                    return self.V.elt(self.get(b2), i)
                return ("ld", sym.el(b2, i) if y[1][0] == "el" or i != C(0) else y[1])
            return None
        return subst(t, f)

    def base(self, a):
        b, i = el_split(a)
        b = self.low(b) if b[0] in ("ld", "ldv") else b
        return self.alias.get(b, b), i

    def store(self, e):
        b, i = self.base(e.addr)
        v = self.low(e.val)
        if e.addr[0] == "fld":
            self.alias[("ld", e.addr)] = v
            self.cell[e.addr] = (v, e)
        elif e.addr[0] != "al" and e.base[0] != "al":
            self.vec[b] = self.V.put(self.get(b), C(1), self.low(i), v)

    def call(self, e):
        n, a, i = e[1:]
        if n in QUIET or n in ("memcmp", "bcmp") or n.startswith("llvm.dbg"):      # (comparing the hashes: P14)
            return
        if n == "spasm_prng_seed" or n == "spasm_prng_seed_simple":
            s = a[0]
            if n == "spasm_prng_seed":
                v = self.vec.get(self.base(s)[0])
                d = self.V.desc[v[1]] if v else None
                if d and d[0] == "all" and d[1] == C(32) and d[2][0] == "ld" and el_split(d[2][1])[1] == KK:
                    s = el_split(d[2][1])[0]
                self.seeds.append((n, s, self.low(a[1]), a[2], i))
            else:
                self.seeds.append((n, a[1], self.low(a[0]), a[2], i))
            self.ctx = a[3]
            self.phase += 1
        elif n == "spasm_solve":
            b, x = self.base(a[1])[0], self.base(a[2])[0]
            self.vec[x] = self.V.of(("solve", a[0], self.get(b)))
        elif n == "spasm_xApy":
            x, y = self.base(a[0])[0], self.base(a[2])[0]
            self.vec[y] = self.V.of(("xApy", self.get(x), self.low(a[1]), self.get(y)))
        elif n.startswith("llvm.mem") or n in ("memcpy", "memset", "memmove"):
            d = self.base(a[0])[0]
            if "set" in n:
                self.vec[d] = self.V.all(self.cells(a[2], d), a[1]) if a[1] == C(0) else self.V.of(("?", i))
            else:
                s = self.base(a[1])[0]
                self.vec[d] = self.V.all(self.cells(a[2], d), self.low(("ld", sym.el(s, KK))))
        elif n in DRAWS or n.startswith("spasm_prng"):
            raise Bad(i.loc, "a number is drawn and used once, outside of the sequence of the protocol")
        else:
            raise Bad(i.loc, "unexpected call of %s" % n)

    def cells(self, size, base):
        """number of elements in that many bytes"""
        if base[0] == "fld" or size[0] == "c":
            return size
        ms, c = to_poly(size)
        w = 4 if c % 4 == 0 and all(v % 4 == 0 for v in ms.values()) else 1
        t = C(c // w)
        for m, v in ms.items():
            x = C(v // w)
            for y in m:
                x = mul(x, y)
            t = add(t, x)
        return t

    # ------------------------------------------------------------------
    def loop(self, e):
        L, init, edge = e[1:4]
        T = self.T
        bodies = T.bodies(L)
        work = any(q.stores() or q.calls(*DRAWS) for q in bodies)
        rs = [r for r in loop_ranges(self.op.S, L) if init.get(r.phi) is not None]
        if not rs:
            if work:
                raise Bad(loc(L), "a loop that does not run through a known range")
            return
        r = rs[0]
        if edge in r.others:
            if work:
                self.early = True
            if not work:
                self.early = True
            return
        start = init[r.phi]
        if r.step == 1:
            base, n = start, add(T.norm(r.hi), start, -1)
        else:
            base, n = T.norm(r.lo), add(add(start, C(1)), T.norm(r.lo), -1)
        n = self.low(n)
        sh = add(base, add(r.term, ("phi", r.phi), -1), -1)       # phi = kk + sh
        up = r.step == 1
        if not work:
            self.compare(L, bodies, r, sh, n, {})
            return
        trips = []
        draws = []
        kinds = []
        for q in bodies:
            if q.loops():
                raise Bad(loc(q), "a search inside the loop")
            for c in q.events:
                if not isinstance(c, Store) and c[0] == "call" and c[1] not in QUIET and c[1] not in DRAWS:
                    raise Bad(c[3].loc, "unexpected call of %s" % c[1])
            ds = q.calls(*DRAWS)
            if len(ds) > 1:
                raise Bad(ds[1][3].loc, "two numbers are drawn at once")
            if ds and (ds[0][2][0] != self.ctx or not up):
                raise Bad(ds[0][3].loc, "the numbers are not drawn from the seeded generator in increasing order of the places")
            kinds.append(len(ds))
            for x in split(q):
                trips.append((q, ds) + x)
        if any(kinds):
            ph = self.phase
            self.phase += 1
        else:
            ph = None
        K = lambda t: subst(t, lambda x: add(KK, sh) if x == ("phi", r.phi) else None)
        one = lambda t, ds: subst(K(t), lambda x: ("draw", ph, "all" if all(kinds) else "some") if ds and x == ("call", ds[0][1], ds[0][3]) else None)
        # appended lists: a counter that advances where something is stored
        new = {}
        bases = []
        for q, ds, fs, st, nx in trips:
            for s, a, v in st:
                b = self.base(K(a))[0]
                if b not in bases and b[0] != "al":
                    bases.append(b)
        common_facts = set(trips[0][2])
        for t in trips:
            common_facts &= set(t[2])
        for B in bases:
            new[B] = self.content(L, B, trips, init, n, K, one, common_facts, all(kinds))
        self.compare(L, bodies, r, sh, n, {q: ds for q, ds, _, _, _ in trips}, ph, all(kinds))
        for B, v in new.items():
            self.vec[B] = v

    def content(self, L, B, trips, init, n, K, one, common, alldraw):
        rows = []
        for q, ds, fs, st, nx in trips:
            mine = [(s, K(a), one(v, ds)) for s, a, v in st if self.base(K(a))[0] == B]
            cell = {}
            for s, a, v in mine:
                cell[el_split(a)[1]] = (self.low(v), s)
            if len(cell) > 1:
                raise Bad(loc(mine[0][0]), "several places are written in one trip")
            rows.append((q, [c for c in (self.low(absent(K(f))) for f in fs if f not in common)],
                         list(cell.items())[0] if cell else None, nx, ds))
        idx = {r[2][0] for r in rows if r[2]}
        if len(idx) != 1:
            raise Bad(loc(L), "the place written varies")
        idx = idx.pop()
        # appending
        if idx[0] == "phi" and idx[1].block is L.header:
            c = idx[1]
            conds = []
            for q, cs, cell, nx, ds in rows:
                if nx.get(c) != (add(idx, C(1)) if cell else idx):
                    raise Bad(loc(q), "the list does not advance by one for each element recorded")
                if cell:
                    conds.append((tuple(sorted(cs, key=sym.key)), cell[1][0]))
            if init.get(c) != C(0):
                raise Bad(loc(L), "the list does not start at its first place")
            if len(conds) != 1:
                raise Bad(loc(L), "the list is filled in several ways")
            if len(rows) == 1:
                return self.V.all(n, conds[0][1])
            return self.V.lst(n, conds[0][0], conds[0][1])
        idx = self.low(idx)
        prev = self.get(B)
        kinds = {(r[2][1][0] if r[2] else None) for r in rows}
        if len(kinds) == 1:
            v = kinds.pop()
            return self.V.all(n, v) if idx == KK else self.V.put(prev, n, idx, v)
        if idx != KK:
            raise Bad(loc(L), "elements are set under a condition")
        # chosen according to a table of marks
        res = {}
        member = None
        for q, cs, cell, nx, ds in rows:
            side = None
            for f in cs:
                for x in walk(f):
                    if x[0] == "elt" and x[2] == KK and self.V.desc[x[1][1]][0] == "put":
                        d = self.V.desc[x[1][1]]
                        z = self.V.desc[d[1][1]]
                        if z[0] != "all":
                            continue
                        if member not in (None, (d[2], d[3], d[4], z[1], x[1])):
                            raise Bad(loc(q), "two different tables of marks decide")
                        member = (d[2], d[3], d[4], z[1], x[1])
                        s = self.side(f, x, z[2], d[4])
                        if s is not None:
                            side = s
            if side is None:
                raise Bad(loc(q), "it is not clear whether this trip deals with a marked element or not")
            own = None
            if cell:
                own = cell[1][0]
            else:
                d = self.V.desc[prev[1]]
                if d[0] == "put" and member and prev == member[4]:
                    own = d[4] if side == "in" else self.V.desc[d[1][1]][2]
                elif d[0] == "all":
                    own = d[2]
                else:
                    raise Bad(loc(q), "an element keeps an unknown value")
            if res.setdefault(side, own) != own:
                raise Bad(loc(q), "elements of one kind are set differently")
        if member[3] != n:
            raise Bad(loc(L), "marks and vector have different sizes")
        if set(res) != {"in", "out"}:
            raise Bad(loc(L), "marked and unmarked elements are not told apart")
        who = lambda side: {len(ds) for q, cs, cell, nx, ds in rows if self.which(cs, member) == side}
        di, do = who("in"), who("out")
        f = lambda t: subst(t, lambda x: ("draw", x[1], "all" if di == do else "in" if di == {1} else "out") if x[0] == "draw" else None)
        return self.V.pick(n, member[:2], f(res["in"]), f(res["out"]))

    def which(self, cs, member):
        for c in cs:
            for x in walk(c):
                if x == ("elt", member[4], KK):
                    s = self.side(c, x, self.V.desc[self.V.desc[member[4][1]][1][1]][2], member[2])
                    if s:
                        return s
        return None

    def side(self, f, x, unmarked, marked):
        """does the fact say that x (one of two values) is the mark?"""
        def truth(v):
            c = subst(f, lambda y: v if y == x else None)
            if c[0] in ("eq0", "ne0", "lt0") and c[1][0] == "c":
                k = c[1][1]
                return {"eq0": k == 0, "ne0": k != 0, "lt0": k < 0}[c[0]]
            if c in (C(0), C(1)):
                return c == C(1)
            return None
        a = truth(unmarked)
        b = truth(marked)
        if b is None and a is not None and f[0] in ("eq0", "ne0"):
            b = f[0] == "ne0"             # a coefficient is never the sentinel
        if a is None or b is None or a == b:
            return None
        return "in" if b else "out"

    def compare(self, L, bodies, r, sh, n, draws, ph=None, alldraw=True):
        """what is compared with what on every trip"""
        K = lambda t: subst(t, lambda x: add(KK, sh) if x == ("phi", r.phi) else None)
        every, late = None, set()
        for q in bodies:
            ds = q.calls(*DRAWS)
            seen = set()
            ts = list(q.facts) + list(q.next.values())
            for t in ts:
                t = K(t)
                if ds:
                    t = subst(t, lambda x: ("draw", ph, "all" if alldraw else "some") if x == ("call", ds[0][1], ds[0][3]) else None)
                for x in walk(t):
                    if x[0] in ("eq0", "ne0"):
                        d = self.low(x[1])
                        a, c = to_poly(d)
                        m = add(C(0), d, -1)
                        seen |= {d, m}
            if any(x[0] == "phi" and x[1].block is L.header and x[1] is not r.phi for t in q.facts for x in walk(t)):
                late |= seen          # compared unless the verdict is already known
                continue
            every = seen if every is None else every & seen
        self.compares.append((n, late if every is None else every, r.step, loc(L)))


# ------------------------------------------------------------------
def final(op, want):
    """the paths that return normally"""
    V = op.V
    out = []
    for p in op.T.top():
        r = Run(op, V, p)
        if r.early:
            if p.ret != C(0):
                raise Bad(op.name, "a loop is left half way, and the function goes on")
            continue
        if p.ret == C(0) and want == "verdict" and not r.compares_needed():
            continue
        out.append((p, r))
    return out


Run.compares_needed = lambda self: bool(self.seeds)


def rename(pairs):
    d = dict(pairs)

    def f(t):
        return d.get(t)
    return f


def setup(op, pairs):
    op.V = Vectors()
    rn = rename(pairs)
    old = op.norm

    def norm(t):
        r = rn(t)
        return r if r is not None else old(t)
    op.T = nest.Tree(op.u, op.fn, op.S, op.mode.decide, norm)
    op.T.rewrite = absent
    op.T.limit = 20000


def seeded(op, r, n, seeds, primes, what):
    if len(r.seeds) != 1:
        raise Bad(op.name, "%s is not seeded once" % what)
    s = r.seeds[0]
    if s[0] != n or s[1] not in seeds or s[2] not in primes or s[3] != C(0):
        raise Bad(s[4].loc, "%s is not seeded with the digest, the modulus and sequence number 0" % what)


def check_vec(op, where, got, want, what):
    if got != want:
        raise Bad(where, "%s: %s; expected %s" % (what, op.V.show(got), op.V.show(want)))


def create(op, m):
    A, H, F = arg(0), arg(1), arg(2)
    U, L = fld(F, 3, LU), fld(F, 2, LU)
    qinv, p = fld(F, 4, LU), fld(F, 5, LU)
    r, n, mm, prime = fld(U, 1), fld(L, 1), fld(U, 2), fld(A, 6)
    PR = None
    setup(op, [(fld(A, 1), n), (fld(A, 2), mm), (fld(F, 0, LU), r), (fld(L, 2), r), (fld(U, 6), prime), (fld(L, 6), prime)])
    op.readonly(A, F)
    V = op.V
    runs = final(op, "proof")
    if not runs:
        raise Bad(op.name, "no certificate is returned")
    for P, R in runs:
        if any(op.T.decide(f) is False for f in P.facts):
            continue
        D = P.ret
        f = lambda k: ("fld", D, CERT, k)
        where = R.seeds[0][4].loc if R.seeds else op.name
        prime = prime_of(R, f, where, A)
        for k, w, what in ((0, r, "rank"),):
            c = R.cell.get(f(k))
            if c is None or c[0] != w:
                raise Bad(loc(c[1]) if c else where, "the %s of the certificate is %s, not %s" % (what, show(c[0]) if c else "not set", show(w)))
        hv = R.vec.get(f(2))
        check_vec(op, where, hv, V.all(C(32), at(H, KK)), "digest of the certificate")
        seeded(op, R, "spasm_prng_seed", {H, f(2)}, {prime}, "the challenge")
        q = lambda k, what: R.vec.get(R.alias.get(("ld", f(k)))) if ("ld", f(k)) in R.alias else None
        check_vec(op, where, q(3, "i"), V.all(r, at(p, KK)), "rows of the certificate")
        neg = neg_cond(("lt0", at(qinv, KK)))
        jj = V.lst(mm, (neg,), KK)
        check_vec(op, where, q(4, "j"), jj, "columns of the certificate")
        y1 = V.put(V.all(mm, C(0)), r, ("elt", jj, KK), ("draw", 1, "all"))
        x1 = V.of(("solve", F, y1))
        check_vec(op, where, q(5, "x"), V.all(r, V.elt(x1, at(p, KK))), "first answer")
        x2 = V.pick(n, (r, at(p, KK)), C(0), mul(C(-1), ("draw", 2, "out")))
        y2 = V.of(("xApy", x2, A, V.all(mm, C(0))))
        x3 = V.of(("solve", F, y2))
        check_vec(op, where, q(6, "y"), V.all(r, V.elt(x3, at(p, KK))), "second answer")


def prime_of(R, f, where, A):
    c = R.cell.get(f(1))
    if c is None or not any(x == fld(A, 6) for x in walk(c[0])):
        raise Bad(loc(c[1]) if c else where, "the modulus of the certificate is not that of the matrix")
    return c[0]


def compared(op, R, n, d, what):
    for c in R.compares:
        if c[0] == n and d in c[1]:
            return
    raise Bad(R.seeds[0][4].loc, "%s: %s is not compared with zero for each k < %s" % (what, op.V.term(d), show(n)))


def verify(op, m):
    A, H, Q = arg(0), arg(1), arg(2)
    setup(op, [])
    op.readonly(A, Q)
    n, mm, r = fld(A, 1), fld(A, 2), fld(Q, 0, CERT)
    qf = lambda k: fld(Q, k, CERT)
    V = op.V
    runs = final(op, "verdict")
    if not runs:
        raise Bad(op.name, "nothing is ever checked")
    for P, R in runs:
        seeded(op, R, "spasm_prng_seed", {H, ("fld", Q, CERT, 2)}, {qf(1)} | {fld(A, 6)} | {
            x for f in P.facts for x in walk(f) if x[0] == "ld" and x[1][0] == "fld"}, "the challenge")
        x1 = V.put(V.all(n, C(0)), r, at(qf(3), KK), at(qf(5), KK))
        y1 = V.of(("xApy", x1, A, V.all(mm, C(0))))
        compared(op, R, r, add(V.elt(y1, at(qf(4), KK)), ("draw", 1, "all"), -1), "first challenge")
        x2 = V.pick(n, (r, at(qf(3), KK)), at(qf(6), KK), ("draw", 2, "out"))
        y2 = V.of(("xApy", x2, A, V.all(mm, C(0))))
        compared(op, R, mm, V.elt(y2, KK), "second challenge")


def factorization(op, m):
    A, F = arg(0), arg(1)
    U, L = fld(F, 3, LU), fld(F, 2, LU)
    p = fld(F, 5, LU)
    n, mm, r = fld(A, 1), fld(A, 2), fld(U, 1)
    setup(op, [(fld(L, 1), n), (fld(U, 2), mm), (fld(F, 0, LU), r), (fld(L, 2), r)])
    op.readonly(A, F)
    V = op.V
    runs = final(op, "verdict")
    if not runs:
        raise Bad(op.name, "nothing is ever checked")
    for P, R in runs:
        if len(R.seeds) != 1:
            raise Bad(op.name, "the random vector is not drawn from one seeded generator")
        ok = None
        for kind in ("all", "in"):
            x = V.pick(n, (r, at(p, KK)), ("draw", 1, kind), C(0))
            t = V.of(("xApy", x, A, V.all(mm, C(0))))
            y = V.of(("xApy", x, L, V.all(r, C(0))))
            z = V.of(("xApy", y, U, V.all(mm, C(0))))
            try:
                compared(op, R, mm, add(V.elt(z, KK), V.elt(t, KK), -1), "images of the random vector")
                ok = True
                break
            except Bad as e:
                ok = e if ok is None else ok
        if ok is not True:
            raise ok


def check(b, rep):
    rep.expl = ("Path-wise symbolic execution of the IR (helpers inlined); every loop is summarised as what it writes to each "
                "array, so that the contents of each vector are a closed formula, compared with the formula of the protocol.")
    for r, t in (("prover", "fields of the certificate and both answers follow the protocol"),
                 ("verifier", "both recomputed vectors are those of the protocol, and all the coefficients it names are compared"),
                 ("factorization", "the random vector, its image by A and its image by L then U are formed and compared")):
        rep.rule(r, t)
    M = b.lib(omp=False)
    ck = Check28(rep, M)
    ck.run("prover", "spasm_certificate_rank_create", modes(), create)
    ck.run("verifier", "spasm_certificate_rank_verify", modes(), verify)
    ck.run("factorization", "spasm_factorization_verify", modes(), factorization)
    rep.assumptions.append("the generator draws as stated in P30, the solver solves as stated in P28, products are those of P27")
    rep.assumptions.append("a factorization of A has as many rows in L as A, as many columns in U as A")


if __name__ == "__main__":
    sys.exit(run("P33", check))
