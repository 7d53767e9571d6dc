"""P27: elementary operations on matrices, triplet lists and permutations follow their definition."""
from common import *
from itertools import product
import pts
import sym
import nest
from sym import C, add, el, el_split, mul, neg_cond, show, walk
from nest import Store, Tree
from trips import contradicts

CSR, TRI = "spasm_csr", "spasm_triplet"
NULL = ("null",)


def fld(x, k, st=CSR):
    return ("ld", ("fld", x, st, k))


def at(base, i):
    return ("ld", el(base, i))


def arg(k):
    return ("arg", k)


class Bad(Exception):
    def __init__(self, where, msg, rule=None):
        Exception.__init__(self, msg)
        self.where, self.msg, self.rule = where, msg, rule


def loc(x, fn=None):
    if isinstance(x, Store):
        return x.inst.loc
    if isinstance(x, nest.Path):
        for b in x.blocks:
            for i in b.insts:
                if i.loc and not i.loc.startswith("?"):
                    return i.loc
    if hasattr(x, "header"):
        for b in [x.header] + sorted(x.blocks, key=lambda b: b.rpo):
            for i in b.insts:
                if i.loc and not i.loc.startswith("?"):
                    return i.loc
    return str(fn)


def implied(c, fs):
    if c in (C(1),):
        return True
    if c[0] == "and":
        return all(implied(x, fs) for x in c[1:])
    if c in fs:
        return True
    n = neg_cond(c)
    return any(contradicts(n, f) for f in fs)


def nonneg(t):
    return neg_cond(("lt0", t))


class Mode:
    """what is assumed: pointers null or not, flags zero or not"""

    def __init__(self, null=None, flag=None):
        self.null, self.flag = dict(null or {}), dict(flag or {})

    def decide(self, c):
        if c[0] in ("eq0", "ne0"):
            d = c[1]
            if d[0] == "pdiff" and NULL in d[1:]:
                p = d[2] if d[1] == NULL else d[1]
                n = self.isnull(p)
                if n is not None:
                    return n == (c[0] == "eq0")
            if d in self.flag:
                return self.flag[d] == (c[0] == "ne0")
        return None

    def isnull(self, p):
        if p in self.null:
            return self.null[p]
        return None

    def text(self):
        out = ["%s %s NULL" % (show(p), "is" if v else "is not") for p, v in self.null.items()
               if p[0] == "arg" or p[0] == "ld" and p[1][1][0] == "arg"]
        out += ["%s is %s" % (show(f), "non-zero" if v else "zero") for f, v in self.flag.items()]
        return ", ".join(out)


class Op:
    """one operation in one mode"""

    def __init__(self, ck, name, mode, allocs=()):
        self.ck, self.name, self.mode = ck, name, mode
        self.u = ck.us[name]
        self.S = sym.Sym(self.u, ck.M)
        self.fn = self.u.fn
        self.obj = {}
        self.T = Tree(self.u, self.fn, self.S, mode.decide, self.norm)
        self.allocs = allocs

    def norm(self, t):
        if t[0] == "ld" and t[1][0] == "fld" and t[1][1][0] == "call" and t[1][1][1] == "spasm_csr_alloc" and t[1][3] in (1, 2):
            return self.T.simp(self.S.t(t[1][1][2].ops[t[1][3] - 1]))
        if t == ("call", "spasm_csr_alloc", None):
            return None
        return None

    def result(self, keep=None):
        """the matrix allocated by the operation; its values are kept iff `keep`"""
        cs = {}
        for p in self.paths():
            for e in p.calls("spasm_csr_alloc"):
                cs.setdefault(e[3], []).append(e[2])
        if len(cs) != 1:
            raise Bad(self.name, "%d matrices are allocated, 1 expected" % len(cs))
        (i, args), = cs.items()
        R = ("call", "spasm_csr_alloc", i)
        fl = {a[4] for a in args}
        if keep is not None:
            ok = {C(1)} if keep else {C(0)}
            got = set()
            for f in fl:
                d = self.T.decide(self.S.cond(f))
                got.add(C(int(d)) if d is not None else f)
            if got != ok:
                raise Bad(i.loc, "the result should %shave coefficients here (allocation flag %s)" % (
                    "" if keep else "not ", "/".join(map(show, got))))
        self.alloc = args[0]
        self.allocloc = i.loc
        # the rest is analysed knowing whether coefficients are present
        self.mode.null[fld(R, 5)] = not keep
        self.T = Tree(self.u, self.fn, self.S, self.mode.decide, self.norm)
        return R

    def paths(self):
        return self.T.top()

    # ------------------------------------------------------------------
    def touched(self, L):
        out = set()
        for b in L.blocks:
            for i in b.insts:
                if i.op == "store":
                    out.add(el_split(self.T.norm(self.S.t(i.ops[1])))[0])
                elif i.op == "call" and (i.callee_name() or "").startswith(("llvm.mem", "mem")):
                    out.add(el_split(self.T.norm(self.S.t(i.ops[0])))[0])
        return out

    def loops_on(self, p, bases):
        bases = set(bases)
        return [e for e in p.loops() if self.touched(e[1]) & bases]

    def empty(self, p, lo, hi):
        return implied(nonneg(add(lo, hi, -1)), p.facts)

    def counter(self, L, init, lo, hi, what):
        r = self.T.counter(L, init, lo, hi)
        if r is None:
            raise Bad(loc(L), "the loop does not visit %s exactly once each" % what)
        return r

    def rows_of(self, L, init, A, lo, hi, src, what):
        """two nested loops over the entries of rows lo..hi-1 of A (row number translated by src): (row, outer body, inner
        loop, its entry values, position term)"""
        i = self.counter(L, init, lo, hi, what + " rows")
        out = []
        Ap = fld(A, 3)
        for q in self.T.bodies(L):
            s = src(i)
            inner = q.loops()
            hit = []
            for e in inner:
                t = self.T.counter(e[1], e[2], at(Ap, s), at(Ap, add(s, C(1))))
                if t is not None:
                    hit.append((e, t))
            if not inner and implied(nonneg(add(at(Ap, s), at(Ap, add(s, C(1))), -1)), q.facts):
                continue
            if len(inner) != 1 or len(hit) != 1:
                raise Bad(loc(inner[0][1]) if inner else loc(q), "not every entry of %s row %s is visited exactly once" % (
                    what, show(s)))
            out.append((i, q, hit[0][0][1], hit[0][0][2], hit[0][1]))
        if not out:
            raise Bad(loc(L), "the rows of %s are never visited" % what)
        return out

    def entry_loops(self, L, init, A, what):
        """every entry of A once, by row or straight through: [(row or None, body path of the innermost loop, position)]"""
        Ap = fld(A, 3)
        n = fld(A, 1)
        for lo in (C(0), at(Ap, C(0))):
            t = self.T.counter(L, init, lo, at(Ap, n))
            if t is not None:
                return [(None, q, t) for q in self.T.bodies(L)]
        out = []
        for i, q, L2, init2, px in self.rows_of(L, init, A, C(0), n, lambda i: i, what):
            if any(e.base[0] != "al" for e in q.stores()):
                raise Bad(loc(q.stores()[0]), "unexpected write between rows")
            for s in self.T.bodies(L2):
                out.append((i, s, px))
        return out

    def only(self, q, want, what, bases=None, optional=()):
        """the path's stores (to `bases`) are exactly want: {addr: value}"""
        got = {}
        for e in q.stores():
            if bases is None or e.base in bases:
                got[e.addr] = e
        for a, v in want.items():
            if a not in got:
                raise Bad(loc(q), "%s: %s is not written on some path" % (what, show(a)))
            if got[a].val != v:
                raise Bad(loc(got[a]), "%s: %s receives %s, not %s" % (what, show(a), show(got[a].val), show(v)))
        for a, e in got.items():
            if a not in want and a not in optional:
                raise Bad(loc(e), "%s: unexpected write to %s" % (what, show(a)))

    # ------------------------------------------------------------------
    def appended(self, p, R, A, lo, hi, src, col, cond, keep, what, Rn=None, inplace=False, extra=None):
        """R is filled row by row, each row with the entries of row src(i) of A satisfying cond, in order"""
        Rp, Rj, Rx = fld(R, 3), fld(R, 4), fld(R, 5)
        Aj, Ax = fld(A, 4), fld(A, 5)
        ls = self.loops_on(p, (Rp, Rj, Rx))
        tops = {e.addr: e for e in p.stores() if e.base in (Rp, Rj, Rx)}
        if not ls:
            if self.empty(p, lo, hi):
                return
            raise Bad(self.name, "no loop fills the result")
        if len(ls) != 1:
            raise Bad(loc(ls[1][1]), "several loops write to the result")
        L, init = ls[0][1:3]
        rowdone = None
        cph = None
        for i, q, L2, init2, px in self.rows_of(L, init, A, lo, hi, src, what):
            k = add(i, lo, -1)
            st = [e for e in q.stores() if e.base in (Rp, Rj, Rx)]
            if any(e.base in (Rj, Rx) for e in st):
                raise Bad(loc(st[0]), "entries are written between rows")
            pos = {e.addr: e for e in st}
            early, late = pos.get(el(Rp, k)), pos.get(el(Rp, add(k, C(1))))
            if (early is None) == (late is None) or len(pos) != 1:
                raise Bad(loc(st[0]) if st else loc(q), "the row pointer of each row is not set once to where the row starts")
            # the running position
            d = [ph for ph in L2.header.phis if ph.type in ("i32", "i64") and init2.get(ph) is not None
                 and init2[ph][0] == "phi" and init2[ph][1].block is L.header and q.next.get(init2[ph][1]) == ("phi", ph)]
            use = early or late
            ok = None
            for ph in d:
                if early is not None and early.val == init2[ph] or late is not None and late.val == ("phi", ph):
                    ok = ph
            if ok is None:
                raise Bad(loc(use), "the row pointer is %s, not the number of entries written so far" % show(use.val))
            c = init2[ok][1]
            if init.get(c) != C(0):
                raise Bad(loc(L), "the first row does not start at position 0")
            if rowdone not in (None, "early" if early else "late") or cph not in (None, c):
                raise Bad(loc(q), "row pointers are set in two different ways")
            rowdone, cph = "early" if early else "late", c
            if late is not None and inplace:
                raise Bad(loc(late), "the pointer of the next row is overwritten before that row is read")
            if inplace and early is not None:
                # the row bounds must be those of the source: the store comes after the loop
                ev = [e for e in q.events]
                if ev.index(early) < [n for n, e in enumerate(ev) if not isinstance(e, Store) and e[0] == "loop"][0]:
                    raise Bad(loc(early), "the row pointer is overwritten before the row is read")
            D = ("phi", ok)
            for s in self.T.bodies(L2):
                j, x = at(Aj, px), at(Ax, px)
                if extra is not None:
                    extra(s, D, ok, px, ("phi", c))
                    continue
                kept = s.next.get(ok) == add(D, C(1))
                if not kept and s.next.get(ok) != D:
                    raise Bad(loc(s), "the position advances by something else than one per entry kept")
                cs = cond(j, x)
                if kept:
                    for cc in cs:
                        if not implied(cc, s.facts):
                            raise Bad(loc(s), "an entry is kept although %s is not known to hold" % show(cc))
                    want = {el(Rj, D): col(j)}
                    if keep:
                        want[el(Rx, D)] = x
                    self.only(s, want, "entry of the result", (Rp, Rj, Rx))
                else:
                    if not any(implied(neg_cond(cc), s.facts) for cc in cs):
                        raise Bad(loc(s), "an entry may be dropped although it belongs to the result")
                    self.only(s, {}, "dropped entry", (Rp, Rj, Rx))
        last = el(Rp, add(hi, lo, -1))
        if rowdone == "early":
            e = tops.pop(last, None)
            if e is None:
                raise Bad(self.name, "the last row pointer is never set")
            if e.val != ("phi", cph):
                raise Bad(loc(e), "the last row pointer is %s, not the number of entries" % show(e.val))
            ev = p.events
            if ev.index(e) < ev.index(ls[0]):
                raise Bad(loc(e), "the last row pointer is set before the rows are filled")
        for a, e in tops.items():
            if a == Rp and e.val == C(0) or e.addr == last:
                continue
            raise Bad(loc(e), "unexpected write to %s" % show(a))

    def shape(self, n, m, what):
        for k, w, nm in ((0, n, "rows"), (1, m, "columns")):
            got = {self.T.norm(x) for x in [self.alloc[k]]}
            if w not in got:
                raise Bad(self.allocloc, "the result has %s %s, not %s" % (show(self.alloc[k]), nm, show(w)))

    def prime(self, A, st=CSR):
        return None

    def returns(self, R):
        for p in self.paths():
            if p.ret != R:
                raise Bad(self.name, "something else than the result is returned")

    # ------------------------------------------------------------------
    def zeroed(self, p, before, W, n):
        """W[0..n) is zero when event `before` starts"""
        if W[0] == "call" and W[1] in ("spasm_calloc", "calloc"):
            a = [self.T.norm(self.S.t(o)) for o in W[2].ops]
            return a[0] == n and a[1] == C(8) or a[1] == n and a[0] == C(8)
        for e in p.events:
            if e is before:
                return False
            if isinstance(e, Store):
                continue
            if e[0] == "call" and e[1].startswith(("llvm.memset", "memset")) and el_split(e[2][0])[0] == W:
                return e[2][1] == C(0) and e[2][2] == mul(n, C(8))
            if e[0] == "loop" and W in self.touched(e[1]):
                r = self.T.counter(e[1], e[2], C(0), n)
                return r is not None and all([s.addr for s in q.stores()] == [el(W, r)] and q.stores()[0].val == C(0)
                                             for q in self.T.bodies(e[1]))
        return False

    def counting(self, p, R, n, entries, key, vals, keep):
        """counting sort of the entries of the source by key into the n rows of R"""
        Rp, Rj, Rx = fld(R, 3), fld(R, 4), fld(R, 5)
        W = set()
        for e in self.loops_on(p, (Rj,)):
            for b in e[1].blocks:
                for i in b.insts:
                    if i.op == "store":
                        a = el_split(self.T.norm(self.S.t(i.ops[1])))[0]
                        if a not in (Rj, Rx):
                            W.add(a)
        W = {w for w in W if w[0] == "call" or w == Rp}
        if len(W) != 1:
            raise Bad(self.name, "no table of row positions is used when the entries are dispatched")
        W = W.pop()
        if W == Rp:
            raise Bad(self.name, "the row pointers themselves are advanced while entries are dispatched")
        ev = p.events
        ls = self.loops_on(p, (W, Rp, Rj, Rx))
        disp = [e for e in ls if Rj in self.touched(e[1])]
        if len(disp) != 1:
            raise Bad(self.name, "the entries are dispatched by %d loops" % len(disp))
        disp = disp[0]
        # -- dispatch
        for row, s, px in entries(disp, "dispatched"):
            k = key(row, px)
            pos = at(W, k)
            want = {el(Rj, pos): vals(row, px)[0], el(W, k): add(pos, C(1))}
            if keep:
                want[el(Rx, pos)] = vals(row, px)[1]
            self.only(s, want, "dispatched entry", (Rj, Rx, W, Rp))
        # -- counts: the loops over entries adding 1 to W[key] before
        cnt = [e for e in ls if e is not disp and any(
            el(W, ("?",)) and s.base == W and s.val == add(("ld", s.addr), C(1))
            for q in self.leaves(e[1]) for s in q.stores())]
        if len(cnt) != 1 or ev.index(cnt[0]) > ev.index(disp):
            raise Bad(self.name, "the entries of each row are not counted by one loop before they are dispatched")
        cnt = cnt[0]
        for row, s, px in entries(cnt, "counted"):
            k = key(row, px)
            self.only(s, {el(W, k): add(at(W, k), C(1))}, "counted entry", (Rj, Rx, W, Rp))
        if not self.zeroed(p, cnt, W, n):
            raise Bad(loc(cnt[1]), "the counts do not all start from zero")
        # -- positions
        rest = [e for e in ls if ev.index(cnt) < ev.index(e) < ev.index(disp)]
        self.prefix(p, W, Rp, n, rest, ev.index(cnt), ev.index(disp))
        for e in ls:
            if e not in (cnt, disp) and e not in rest and ev.index(e) > ev.index(disp) and self.touched(e[1]) & {Rj, Rx} \
                    and not self.later:
                raise Bad(loc(e[1]), "the entries are written again after having been dispatched")

    later = False

    def leaves(self, L):
        out = []
        for q in self.T.bodies(L):
            out.append(q)
            for e in q.loops():
                out += self.leaves(e[1])
        return out

    def prefix(self, p, W, Rp, n, ls, lo, hi):
        ev = p.events
        tops = {e.addr: e for k, e in enumerate(ev) if isinstance(e, Store) and e.base in (W, Rp)}
        gotR = gotW = False
        last = None
        for e in ls:
            L, init = e[1:3]
            r = self.T.counter(L, init, C(0), n)
            if r is None:
                raise Bad(loc(L), "row positions are not computed for every row once")
            w = at(W, r)
            for q in self.T.bodies(L):
                st = {s.addr: s for s in q.stores() if s.base in (W, Rp)}
                run = [ph for ph in L.header.phis if init.get(ph) == C(0) and q.next.get(ph) == add(("phi", ph), w)]
                P = {("phi", ph) for ph in run}
                a0, a1, aw = el(Rp, r), el(Rp, add(r, C(1))), el(W, r)
                for a in st:
                    if a not in (a0, a1, aw):
                        raise Bad(loc(st[a]), "unexpected write to %s" % show(a))
                if a1 in st:
                    if st[a1].val == add(("ld", a0), w) and self.start0(p, Rp, e):
                        P.add(("ld", a0))
                        gotR = "late"
                    elif st[a1].val in {add(x, w) for x in P} and self.start0(p, Rp, e):
                        gotR = "late"
                    else:
                        raise Bad(loc(st[a1]), "a row pointer is not the sum of the counts before it")
                if a0 in st:
                    if st[a0].val not in P:
                        raise Bad(loc(st[a0]), "a row pointer is not the sum of the counts before it")
                    gotR = "early"
                    last = run[0] if run else None
                if gotR and not run and a0 not in st and a1 not in st:
                    P.add(("ld", a0))
                if aw in st:
                    if st[aw].val not in P:
                        raise Bad(loc(st[aw]), "the position of a row is not the sum of the counts before it")
                    gotW = True
        for k, e in enumerate(ev):
            if lo < k < hi and not isinstance(e, Store) and e[0] == "call" and e[1].startswith(("llvm.memcpy", "memcpy")) \
                    and e[2][0] == W and e[2][1] == Rp and e[2][2] == mul(n, C(8)) and gotR:
                gotW = True
        if not gotR:
            raise Bad(self.name, "the row pointers are never computed")
        if not gotW:
            raise Bad(self.name, "the positions used for dispatching are never computed")
        if gotR == "early":
            e = tops.pop(el(Rp, n), None)
            if e is None or last is None or e.val != ("phi", last):
                raise Bad(loc(e) if e else self.name, "the last row pointer is not the total number of entries")
        for a, e in tops.items():
            if a == Rp and e.val == C(0) or self.later:
                continue
            raise Bad(loc(e), "unexpected write to %s" % show(a))

    def start0(self, p, Rp, before):
        """Rp[0] is 0 at that point: set explicitly or by the allocation"""
        for e in p.events:
            if e is before:
                break
            if isinstance(e, Store) and e.addr == Rp:
                return e.val == C(0)
        return True


class Checker:
    def __init__(self, rep, M):
        self.rep, self.M = rep, M
        self.us = {u.fn.name: u for u in pts.units(M) if not u.fn.name.startswith("spasm_SHA256")}

    def run(self, rule, name, modes, f):
        if name not in self.us:
            self.rep.bad(rule, name, name, "%s does not exist" % name)
            return
        n = 0
        for m in modes:
            try:
                op = Op(self, name, m)
                f(op, m)
                self.rep.ok(rule, name, m.text() or "all inputs")
            except Bad as e:
                self.rep.bad(rule, e.where, "%s" % name, "%s: %s%s" % (name, e.msg, " (when %s)" % m.text() if m.text() else ""))
                return
            except nest.TooMany:
                self.rep.bad(rule, name, name, "%s: not decided: too many paths" % name)
                return


def modes(null=(), flag=()):
    for v in product((False, True), repeat=len(null) + len(flag)):
        yield Mode(dict(zip(null, v)), dict(zip(flag, [not x for x in v[len(null):]])))


def transpose(op, m):
    A = arg(0)
    keep = m.flag[arg(1)] and not m.null[fld(A, 5)]
    R = op.result(keep)
    n, mm = fld(A, 1), fld(A, 2)
    op.shape(mm, n, "transpose")
    op.returns(R)
    for p in op.paths():
        op.counting(p, R, mm, lambda e, what: op.entry_loops(e[1], e[2], A, what),
                    lambda i, px: at(fld(A, 4), px), lambda i, px: (i, at(fld(A, 5), px)), keep)


def permute(op, m):
    A, P, Q = arg(0), arg(1), arg(2)
    keep = m.flag[arg(3)] and not m.null[fld(A, 5)]
    R = op.result(keep)
    op.shape(fld(A, 1), fld(A, 2), "permuted matrix")
    op.returns(R)
    for p in op.paths():
        op.appended(p, R, A, C(0), fld(A, 1), (lambda i: i) if m.null[P] else (lambda i: at(P, i)),
                    (lambda j: j) if m.null[Q] else (lambda j: at(Q, j)), lambda j, x: [], keep, "source")


def submatrix(op, m):
    A, r0, r1, c0, c1 = [arg(k) for k in range(5)]
    keep = m.flag[arg(5)] and not m.null[fld(A, 5)]
    R = op.result(keep)
    n, mm = op.alloc[0], op.alloc[1]
    for got, lo, hi, w in ((n, r0, r1, "rows"), (mm, c0, c1, "columns")):
        d = add(hi, lo, -1)
        if got not in (d, sym.minmax("max", C(0), d)):
            raise Bad(op.allocloc, "the result has %s %s" % (show(got), w))
    op.returns(R)
    for p in op.paths():
        op.appended(p, R, A, r0, r1, lambda i: i, lambda j: add(j, c0, -1),
                    lambda j, x: [nonneg(add(j, c0, -1)), ("lt0", add(j, c1, -1))], keep, "source")


def compress(op, m):
    T = arg(0)
    keep = not m.null[fld(T, 6, TRI)]
    R = op.result(keep)
    op.shape(fld(T, 2, TRI), fld(T, 3, TRI), "matrix")
    op.returns(R)
    op.later = True
    nz, n = fld(T, 1, TRI), fld(T, 2, TRI)
    Ti, Tj, Tx = [fld(T, k, TRI) for k in (4, 5, 6)]

    def entries(e, what):
        r = op.counter(e[1], e[2], C(0), nz, "the entries")
        return [(None, q, r) for q in op.T.bodies(e[1])]
    for p in op.paths():
        Rp, Rj, Rx = fld(R, 3), fld(R, 4), fld(R, 5)
        # phases: counting sort, then in-place passes over the rows
        on = op.loops_on(p, (Rj, Rx))
        sub = nest.Path(op.T, set(), None)
        cut = p.events.index(on[1]) if len(on) > 1 else len(p.events)
        first = p.events[:cut]
        # what is written at top level between the passes belongs to the pass before it
        sub.events, sub.facts = first, p.facts
        op.counting(sub, R, n, entries, lambda i, px: at(Ti, px), lambda i, px: (at(Tj, px), at(Tx, px)), keep)
        rest = p.events[cut:]
        kinds = []
        pre = first
        for k, e in enumerate(on[1:]):
            nxt = p.events.index(on[k + 2]) if k + 2 < len(on) else len(p.events)
            seg = nest.Path(op.T, set(), None)
            seg.events, seg.facts = p.events[p.events.index(e):nxt], p.facts
            kinds.append(inplace(op, seg, pre, R, n, keep))
            pre = pre + seg.events
        if "merge" not in kinds:
            raise Bad(op.name, "duplicate entries are not merged")
        if keep and ("zero" not in kinds or kinds.index("zero") < kinds.index("merge")):
            raise Bad(op.name, "entries that become zero when duplicates are summed are not removed")


def inplace(op, p, before, R, n, keep):
    """one pass over R compacting it in place: removal of zeros, or merging of duplicates"""
    Rp, Rj, Rx = fld(R, 3), fld(R, 4), fld(R, 5)
    e = op.loops_on(p, (Rj, Rx))[0]
    marks = {b for b in op.touched(e[1]) if b[0] == "call" and b != R and b[1] != "spasm_csr_alloc"}
    if not marks:
        op.appended(p, R, R, C(0), n, lambda i: i, lambda j: j, lambda j, x: [("ne0", x)], keep, "source", inplace=True)
        return "zero"
    if len(marks) != 1:
        raise Bad(loc(e[1]), "not decided: several work arrays in one pass")
    V = marks.pop()
    if not filled_negative(op, before, V):
        raise Bad(loc(e[1]), "the table of last positions does not start out negative for every column")

    def body(s, D, ok, px, c):
        j, x = at(Rj, px), at(Rx, px)
        seen = at(V, j)
        if implied(("lt0", add(seen, c, -1)), s.facts):
            want = {el(V, j): D, el(Rj, D): j}
            if keep:
                want[el(Rx, D)] = x
            op.only(s, want, "first entry on its column", (V, Rp, Rj, Rx))
            if s.next.get(ok) != add(D, C(1)):
                raise Bad(loc(s), "the position does not advance by one for a new entry")
        elif implied(nonneg(add(seen, c, -1)), s.facts):
            want = {}
            if keep:
                a, b = sorted((at(Rx, seen), x), key=sym.key)
                want[el(Rx, seen)] = ("zz", "add", a, b)
            op.only(s, want, "repeated entry", (V, Rp, Rj, Rx))
            if s.next.get(ok) != D:
                raise Bad(loc(s), "the position advances for a repeated entry")
        else:
            raise Bad(loc(s), "whether the column was already met in this row is not established")
    op.appended(p, R, R, C(0), n, lambda i: i, None, None, keep, "source", inplace=True, extra=body)
    return "merge"


def filled_negative(op, events, V):
    m = op.T.norm(op.alloc[1])
    for e in events:
        if isinstance(e, Store):
            continue
        if e[0] == "call" and e[1].startswith(("llvm.memset", "memset")) and el_split(e[2][0])[0] == V:
            return e[2][1] in (C(-1), C(255)) and e[2][2] == mul(m, C(8))
        if e[0] == "loop" and V in op.touched(e[1]):
            r = op.T.counter(e[1], e[2], C(0), m)
            return r is not None and all(
                [s.addr for s in q.stores()] == [el(V, r)] and q.stores()[0].val[0] == "c" and q.stores()[0].val[1] < 0
                for q in op.T.bodies(e[1]))
    return False


# -- products and vectors ---------------------------------------------------
def zz(f, *a):
    if f == "axpy":
        return ("zz", f) + tuple(sorted(a[:2], key=sym.key)) + (a[2],)
    return ("zz", f) + tuple(sorted(a, key=sym.key))


def zero_skip(s, factors):
    return any(implied(("eq0", f), s.facts) for f in factors)


def sums(factors, old, fs):
    """acceptable values of old + product of the factors, given the facts"""
    out = [zz("axpy", factors[0], factors[1], old)]
    for a, b in (factors, factors[::-1]):
        if implied(("eq0", add(a, C(-1))), fs):
            out.append(zz("add", b, old))
        if implied(("eq0", add(a, C(1))), fs):
            out.append(("zz", "sub", old, b))
    return out


def accumulate(op, s, addr, factors, what, bases, fs=()):
    """one entry adds the product of its factors to the value at addr"""
    st = [e for e in s.stores() if e.base in bases]
    if not st and zero_skip(s, factors):
        return
    ok = sums(factors, ("ld", addr), tuple(s.facts) + tuple(fs))
    v = st[0].val if len(st) == 1 and st[0].val in ok else ok[0]
    op.only(s, {addr: v}, what, bases)


def scatter(op, m):
    A, i, beta, x = [arg(k) for k in range(4)]
    Ap = fld(A, 3)
    for p in op.paths():
        if p.stores():
            raise Bad(loc(p.stores()[0]), "unexpected write")
        ls = op.loops_on(p, (x,))
        if not ls and (op.empty(p, at(Ap, i), at(Ap, add(i, C(1)))) or implied(("eq0", beta), p.facts)):
            continue
        if len(ls) != 1 or len(p.loops()) != 1:
            raise Bad(op.name, "not exactly one loop over the row")
        px = op.counter(ls[0][1], ls[0][2], at(Ap, i), at(Ap, add(i, C(1))), "the entries of the row")
        for s in op.T.bodies(ls[0][1]):
            accumulate(op, s, el(x, at(fld(A, 4), px)), (beta, at(fld(A, 5), px)), "entry", {x}, p.facts)
            for e in s.stores():
                if e.base != x:
                    raise Bad(loc(e), "unexpected write to %s" % show(e.addr))


def product_op(out, vec, byrow):
    def f(op, m):
        A = arg(1) if op.name == "spasm_xApy" else arg(0)
        x, y = arg(vec), arg(out)
        for p in op.paths():
            if p.stores():
                raise Bad(loc(p.stores()[0]), "unexpected write")
            ls = p.loops()
            if len(ls) != 1:
                if not ls and op.empty(p, C(0), fld(A, 1)):
                    continue
                raise Bad(op.name, "not exactly one loop over the rows")
            L, init = ls[0][1], ls[0][2]
            i = op.counter(L, init, C(0), fld(A, 1), "the rows")
            Ap, Aj, Ax = fld(A, 3), fld(A, 4), fld(A, 5)
            for q in op.T.bodies(L):
                inner = q.loops()
                st = q.stores()
                rows = q.calls("spasm_scatter")
                if not byrow and not inner and not st and len(rows) == 1 and rows[0][2] == (A, i, at(x, i), y):
                    continue
                if not inner:
                    if st or not (implied(nonneg(add(at(Ap, i), at(Ap, add(i, C(1))), -1)), q.facts)
                                  or not byrow and implied(("eq0", at(x, i)), q.facts)):
                        raise Bad(loc(q), "a row is skipped")
                    continue
                px = op.T.counter(inner[0][1], inner[0][2], at(Ap, i), at(Ap, add(i, C(1))))
                if len(inner) != 1 or px is None:
                    raise Bad(loc(inner[0][1]), "not every entry of the row is visited exactly once")
                j = at(Aj, px)
                fac = (at(x, j) if byrow else at(x, i), at(Ax, px))
                addr = el(y, i) if byrow else el(y, j)
                acc = None
                if st:
                    if len(st) != 1 or st[0].addr != addr or not byrow or st[0].val[0] != "phi":
                        raise Bad(loc(st[0]), "unexpected write to %s" % show(st[0].addr))
                    acc = st[0].val[1]
                    if inner[0][2].get(acc) != ("ld", addr):
                        raise Bad(loc(st[0]), "the sum of a row does not start from the previous value")
                for s in op.T.bodies(inner[0][1]):
                    if acc is None:
                        accumulate(op, s, addr, fac, "entry", {y}, q.facts)
                        for e in s.stores():
                            if e.base != y:
                                raise Bad(loc(e), "unexpected write to %s" % show(e.addr))
                    else:
                        if s.stores():
                            raise Bad(loc(s.stores()[0]), "unexpected write")
                        v = s.next.get(acc)
                        if v not in sums(fac, ("phi", acc), tuple(s.facts) + tuple(q.facts)) and not (
                                v == ("phi", acc) and zero_skip(s, fac)):
                            raise Bad(loc(s), "an entry adds %s to the sum of its row" % show(v))
    return f


def each(op, p, lo, hi, stores, what, allowcopy=None):
    """one loop over lo..hi-1 whose every trip does exactly stores(i)"""
    ls = p.loops()
    bs = None
    if allowcopy is not None:
        for e in p.calls(*[c[1] for c in p.events if not isinstance(c, Store) and c[0] == "call"]):
            if e[1].startswith(("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")):
                if e[2][:3] == allowcopy and not ls and not p.stores():
                    return
                raise Bad(op.name, "unexpected copy")
    if p.stores():
        raise Bad(loc(p.stores()[0]), "unexpected write")
    if not ls and op.empty(p, lo, hi):
        return
    if len(ls) != 1:
        raise Bad(op.name, "%d loops instead of 1" % len(ls))
    r = op.counter(ls[0][1], ls[0][2], lo, hi, what)
    for q in op.T.bodies(ls[0][1]):
        if q.loops():
            raise Bad(loc(q), "unexpected inner loop")
        op.only(q, stores(r), what)


def pvec(op, m):
    P, b, x, n = [arg(k) for k in range(4)]
    ident = m.null[P]
    fwd = op.name == "spasm_pvec"
    for p in op.paths():
        def st(i):
            k = i if ident else at(P, i)
            return {el(x, i): at(b, k)} if fwd else {el(x, k): at(b, i)}
        each(op, p, C(0), n, st, "the entries", (x, b, mul(n, C(4))) if ident else None)


def pinv(op, m):
    P, n = arg(0), arg(1)
    for p in op.paths():
        if m.null[P]:
            if p.ret != NULL or p.stores() or p.loops():
                raise Bad(op.name, "the inverse of the identity (NULL) is not NULL")
            continue
        R = p.ret
        if R is None or R[0] != "call" or R[1] not in ("spasm_malloc", "spasm_calloc", "malloc", "calloc"):
            raise Bad(op.name, "no new array is returned")
        each(op, p, C(0), n, lambda k: {el(R, at(P, k)): k}, "the positions")


def add_entry(op, m):
    T, i, j, x = [arg(k) for k in range(4)]
    F = lambda k: fld(T, k, TRI)
    A = lambda k: ("fld", T, TRI, k)
    null = m.null[F(6)]
    for p in op.paths():
        if p.loops():
            raise Bad(op.name, "unexpected loop")
        px = F(1)
        v = ("zz", "init", x)
        vals = {e.val for e in p.stores() if e.addr == el(F(6), px)}
        st = {e.addr: e for e in p.stores()}
        zero = not null and implied(("eq0", v), p.facts)
        if zero:
            for a, e in st.items():
                if a not in (el(F(6), px), el(F(4), px), el(F(5), px)):
                    raise Bad(loc(e), "a zero entry changes the list")
            continue
        if not null and not implied(("ne0", v), p.facts):
            raise Bad(loc(p.stores()[0]) if p.stores() else op.name, "an entry that may be zero is stored")
        want = {el(F(4), px): i, el(F(5), px): j, A(1): add(px, C(1))}
        if not null:
            want[el(F(6), px)] = v
        for k, w in ((2, i), (3, j)):
            up = add(w, C(1))
            e = st.get(A(k))
            if e is None:
                if not implied(nonneg(add(F(k), up, -1)), p.facts):
                    raise Bad(op.name, "the dimensions are not enlarged to contain the entry")
            elif e.val == up and implied(nonneg(add(up, F(k), -1)), p.facts):
                want[A(k)] = up
            elif e.val == F(k) and implied(nonneg(add(F(k), up, -1)), p.facts):
                want[A(k)] = F(k)
            else:
                want[A(k)] = sym.minmax("max", F(k), up)
        op.only(p, want, "new entry")


def tri_transpose(op, m):
    T = arg(0)
    for p in op.paths():
        if p.loops():
            raise Bad(op.name, "unexpected loop")
        fin = {e.addr: e.val for e in p.stores()}
        A = lambda k: ("fld", T, TRI, k)
        want = {A(4): ("ld", A(5)), A(5): ("ld", A(4)), A(2): ("ld", A(3)), A(3): ("ld", A(2))}
        if fin != want:
            bad = [a for a in set(fin) | set(want) if fin.get(a) != want.get(a)]
            a = sorted(bad, key=sym.key)[0]
            raise Bad(op.name, "%s ends up as %s, not %s" % (show(a), show(fin[a]) if a in fin else "unchanged",
                                                            show(want[a]) if a in want else "unchanged"))


def range_pvec(op, m):
    x, a, b, P = [arg(k) for k in range(4)]
    n = add(b, a, -1)
    for p in op.paths():
        ls = p.loops()
        if not ls and op.empty(p, C(0), n):
            continue
        if len(ls) != 2 or p.stores():
            raise Bad(op.name, "not the two passes expected")
        for k, e in enumerate(ls):
            r = op.T.counter(e[1], e[2], C(0), n)
            sh = C(0)
            if r is None:
                r = op.T.counter(e[1], e[2], a, b)
                sh = a
            if r is None:
                raise Bad(loc(e[1]), "the loop does not visit the range exactly once")
            i = add(r, sh, -1)
            for q in op.T.bodies(e[1]):
                if k == 0:
                    op.only(q, {el(P, i): at(x, add(a, at(P, i)))}, "gather")
                else:
                    op.only(q, {el(x, add(a, i)): at(P, i)}, "write back")


def csr_alloc(op, m):
    tri = op.name == "spasm_triplet_alloc"
    st = TRI if tri else CSR
    n, mm, nz, prime, flag = [arg(k) for k in range(5)]
    keep = m.flag[flag]
    for p in op.paths():
        R = p.ret
        if R is None or R[0] != "call":
            raise Bad(op.name, "no new object is returned")
        st_ = {e.addr: e for e in p.stores()}
        got = {}
        for a, e in st_.items():
            if a[0] == "fld" and a[1] == R:
                got[a[3]] = e
        calls = {("call", e[1], e[3]): e for e in p.events if not isinstance(e, Store) and e[0] == "call"}
        size = lambda t: (lambda e: e[2][0] if e[1] == "spasm_malloc" else mul(e[2][0], e[2][1]))(calls[t]) \
            if t in calls and calls[t][1] in ("spasm_malloc", "spasm_calloc") else None
        fields = {2: n, 3: mm, 0: nz, 1: C(0)} if tri else {1: n, 2: mm, 0: nz}
        for k, v in fields.items():
            if k not in got or got[k].val != v:
                raise Bad(loc(got[k]) if k in got else op.name, "field %d of the new object is not %s" % (k, show(v)))
        arrays = {4: mul(nz, C(4)), 5: mul(nz, C(4))} if tri else {3: mul(add(n, C(1)), C(8)), 4: mul(nz, C(4))}
        xk = 6 if tri else 5
        if keep:
            arrays[xk] = mul(nz, C(4))
        elif xk not in got or got[xk].val != NULL:
            raise Bad(op.name, "a matrix without values gets a value array (or none is set)")
        for k, s in arrays.items():
            if k not in got:
                raise Bad(op.name, "array %d is not allocated" % k)
            if size(got[k].val) != s:
                raise Bad(loc(got[k]), "array %d is allocated with %s bytes, not %s" % (
                    k, show(size(got[k].val)) if size(got[k].val) else "?", show(s)))
        if not tri:
            z = st_.get(got[3].val)
            if z is None or z.val != C(0):
                raise Bad(op.name, "the first row pointer of an empty matrix is not 0")
        if not p.calls("spasm_field_init") and False:
            raise Bad(op.name, "no field")


def resize(op, m):
    """dimensions set, room for the row pointers, and every new row empty"""
    A, n, mm = [arg(k) for k in range(3)]
    A_ = lambda k: ("fld", A, CSR, k)
    old = fld(A, 1)
    for p in op.paths():
        fin = {}
        for e in p.stores():
            fin[e.addr] = e
        for k, v in ((1, n), (2, mm)):
            e = fin.pop(A_(k), None)
            if e is None or e.val != v:
                raise Bad(loc(e) if e else op.name, "the dimensions are not those asked for")
        calls = p.calls("spasm_realloc")
        e = fin.pop(A_(3), None)
        if e is None or len(calls) != 1 or e.val != ("call", "spasm_realloc", calls[0][3]):
            raise Bad(op.name, "the row pointers are not resized")
        if calls[0][2][0] != fld(A, 3) or calls[0][2][1] != mul(add(n, C(1)), C(8)):
            raise Bad(loc(e), "the row pointers get %s bytes" % show(calls[0][2][1]))
        bases = (fld(A, 3), e.val)
        if fin:
            raise Bad(loc(list(fin.values())[0]), "unexpected write to %s" % show(list(fin)[0]))
        ls = p.loops()
        if not ls:
            if not implied(nonneg(add(old, n, -1)), p.facts):
                raise Bad(op.name, "the pointers of the new rows are not set")
            continue
        if len(ls) != 1:
            raise Bad(op.name, "%d loops instead of 1" % len(ls))
        L = ls[0]
        r = op.T.counter(L[1], L[2], old, add(n, C(1))) or op.T.counter(L[1], L[2], add(old, C(1)), add(n, C(1)))
        if r is None:
            raise Bad(loc(L[1]), "the loop does not visit the pointer of every new row")
        pos = {id(x): k for k, x in enumerate(p.events)}
        early = [e for e in p.stores() if e.addr == A_(1) and pos[id(e)] < pos[id(L)]]
        if early and any(i.op == "load" and op.T.norm(op.S.t(i.ops[0])) == A_(1) for b in L[1].blocks for i in b.insts):
            raise Bad(loc(L[1]), "the loop reads the number of rows after it changed")
        fromold = op.T.counter(L[1], L[2], old, add(n, C(1))) is not None
        for q in op.T.bodies(L[1]):
            st = q.stores()
            if len(st) != 1 or q.loops() or st[0].addr not in [el(x, r) for x in bases]:
                raise Bad(loc(q), "a new row pointer is not set exactly once")
            good = [at(x, old) for x in bases] + ([] if fromold else [at(x, add(r, C(-1))) for x in bases])
            v = st[0].val
            if v[0] == "sel" and v[1] == ("lt0", add(old, n, -1)) and not fromold:
                v = v[2]                                   # there is a trip only if there are new rows
            if v not in good:
                raise Bad(loc(st[0]), "the pointer of a new row becomes %s: the row is not empty" % show(st[0].val))


def realloc(op, m):
    """capacity and every array grow or shrink together"""
    tri = op.name == "spasm_triplet_realloc"
    st, xk = (TRI, 6) if tri else (CSR, 5)
    A, want = arg(0), arg(1)
    nnz = fld(A, 1, TRI) if tri else at(fld(A, 3), fld(A, 1))
    for p in op.paths():
        if p.loops():
            raise Bad(op.name, "unexpected loop")
        neg = implied(("lt0", want), p.facts)
        if not neg and not implied(nonneg(want), p.facts):
            raise Bad(op.name, "whether a negative capacity was given is not established")
        cap = nnz if neg else want
        fin = {e.addr: e for e in p.stores()}
        keys = ((4, 5) if tri else (4,)) + (() if m.null[fld(A, xk, st)] else (xk,))
        for k in keys:
            e = fin.pop(("fld", A, st, k), None)
            c = [x for x in p.calls("spasm_realloc") if e is not None and e.val == ("call", "spasm_realloc", x[3])]
            if not c:
                raise Bad(loc(e) if e else op.name, "array %d is not reallocated" % k)
            if c[0][2][0] != fld(A, k, st) or c[0][2][1] != mul(cap, C(4)):
                raise Bad(loc(e), "array %d becomes %s resized to %s bytes" % (k, show(c[0][2][0]), show(c[0][2][1])))
        e = fin.pop(("fld", A, st, 0), None)
        if e is None or e.val != cap:
            raise Bad(loc(e) if e else op.name, "the capacity recorded is not %s" % show(cap))
        if fin:
            raise Bad(loc(list(fin.values())[0]), "unexpected write to %s" % show(list(fin)[0]))


def check(b, rep):
    rep.expl = ("Loop-nest extraction by path-wise symbolic execution of the IR (helpers inlined; loops as trees of trips; "
                "loads see earlier stores of the trip), separately for each combination of null permutations and value "
                "flags, matched against the definition of each operation: which source entries are visited, where each "
                "goes, with which coefficient, and what every row pointer becomes.")
    for r, t in (("transpose", "counts, positions and dispatch each visit every entry once; entry (i, j, x) becomes (j, i, x)"),
                 ("permute", "row i of the result holds row p[i] of the source with columns mapped by qinv, coefficients alike"),
                 ("submatrix", "exactly the entries inside the block, shifted, coefficients alike"),
                 ("compress", "every entry of the list dispatched to its row; duplicates summed, then zeros removed"),
                 ("add-entry", "zero entries ignored; others stored at the end with the dimensions enlarged"),
                 ("triplet-transpose", "rows and columns exchanged, with the dimensions"),
                 ("products", "scatter, x*A + y and A*x + y add every coefficient times the right factor to the right place"),
                 ("vectors", "pvec, ipvec, pinv, range_pvec follow their definition, NULL meaning identity"),
                 ("allocation", "new matrices have the dimensions, capacities and arrays asked for; resizing sets the "
                  "dimensions, keeps the rows and makes new rows empty; reallocating changes capacity and arrays together")):
        rep.rule(r, t)
    M = b.lib()
    ck = Checker(rep, M)
    Ax0, Tx0 = fld(arg(0), 5), fld(arg(0), 6, TRI)
    ck.run("transpose", "spasm_transpose", modes([Ax0], [arg(1)]), transpose)
    ck.run("permute", "spasm_permute", modes([Ax0, arg(1), arg(2)], [arg(3)]), permute)
    ck.run("submatrix", "spasm_submatrix", modes([Ax0], [arg(5)]), submatrix)
    ck.run("compress", "spasm_compress", modes([Tx0]), compress)
    ck.run("add-entry", "spasm_add_entry", modes([Tx0]), add_entry)
    ck.run("triplet-transpose", "spasm_triplet_transpose", modes(), tri_transpose)
    ck.run("products", "spasm_scatter", modes(), scatter)
    ck.run("products", "spasm_xApy", modes(), product_op(2, 0, False))
    ck.run("products", "spasm_Axpy", modes(), product_op(2, 1, True))
    ck.run("vectors", "spasm_pvec", modes([arg(0)]), pvec)
    ck.run("vectors", "spasm_ipvec", modes([arg(0)]), pvec)
    ck.run("vectors", "spasm_pinv", modes([arg(0)]), pinv)
    ck.run("vectors", "spasm_range_pvec", modes(), range_pvec)
    ck.run("allocation", "spasm_csr_alloc", modes([], [arg(4)]), csr_alloc)
    ck.run("allocation", "spasm_triplet_alloc", modes([], [arg(4)]), csr_alloc)
    ck.run("allocation", "spasm_csr_resize", modes(), resize)
    ck.run("allocation", "spasm_csr_realloc", modes([Ax0]), realloc)
    ck.run("allocation", "spasm_triplet_realloc", modes([Tx0]), realloc)
    rep.assumptions.append("distinct array arguments of one call (x, y, permutations, matrices) do not overlap, as their "
                           "documentation requires")


if __name__ == "__main__":
    sys.exit(run("P27", check))
