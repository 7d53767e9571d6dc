"""P29: Schur complements hold exactly the non-pivotal part of the rows asked for."""
from common import *
import sym
import nest
import p27
from sym import C, add, el, el_split, mul, neg_cond, show, subst, walk
from nest import Store
from p27 import TRI, Bad, Mode, arg, at, fld, implied, loc, modes, nonneg
from p28 import LU, Asm, Check28, Stream, builder, entries, fresh_row, opp, position, same_until, solved, the_alloc, \
    triplet_append


class Tagged(Mode):
    """additionally, a term is known to have one of a few constant values"""

    def __init__(self, term, value, name, null=None):
        Mode.__init__(self, null)
        self.term, self.value, self.name = term, C(value), name

    def decide(self, c):
        r = Mode.decide(self, c)
        if r is None and c[0] in ("eq0", "ne0", "lt0") and any(x == self.term for x in walk(c)):
            d = subst(c[1], lambda t: self.value if t == self.term else None)
            if d[0] == "c":
                return d[1] == 0 if c[0] == "eq0" else d[1] != 0 if c[0] == "ne0" else d[1] < 0
        return r

    def text(self):
        return ", ".join(x for x in (Mode.text(self), self.name) if x)


TAGS = [(0, "double elements"), (1, "float elements"), (2, "64-bit integer elements")]


def tagged(term, null=()):
    for v in p27.product((False, True), repeat=len(null)):
        for t, n in TAGS:
            yield Tagged(term, t, n, dict(zip(null, v)))


def original(m, p_in, i):
    return i if m.null[p_in] else at(p_in, i)


def schur(op, m):
    A, P, n, F, _, Lt, p_in, p_out = [arg(k) for k in range(8)]
    U, qinv = fld(F, 3, LU), fld(F, 4, LU)
    mm = fld(A, 2)
    op.readonly(P, p_in)
    for p in op.paths():
        S = the_alloc(op, p, n, mm)
        if p.ret != S:
            raise Bad(op.name, "the Schur complement is not returned")
        e = builder(op, p, S, n, "Schur complement")
        if e is None:
            continue
        i = op.counter(e[1], e[2], C(0), n, "the rows")
        row = at(P, i)
        io = original(m, p_in, row)
        Ls = {fld(Lt, k, TRI) for k in (4, 5, 6)}
        keep = []

        def body(q):
            c, top, xj, x = solved(op, q, U, A, row, qinv)
            for f in q.loops():
                if op.reach(f[1]) & ({fld(S, 4)} | Ls):
                    w = same_until(op, q, c, f, {xj, x})
                    if w is not None:
                        raise Bad(loc(w) if isinstance(w, Store) else loc(q), "the row is changed before it is copied")
            Sj, Sx = fld(S, 4), fld(S, 5)
            j = lambda px: at(xj, px)
            out = [Stream({Sj, Sx}, lambda px: [("lt0", at(qinv, j(px))), ("ne0", at(x, j(px)))],
                          lambda px: {Sj: j(px), Sx: at(x, j(px))}, [], "entry of the Schur complement")]
            if not m.null[Lt]:
                a, b, c = [fld(Lt, k, TRI) for k in (4, 5, 6)]
                out.append(Stream(Ls, lambda px: [nonneg(at(qinv, j(px))), ("ne0", at(x, j(px)))],
                                  lambda px: {a: io, b: at(qinv, j(px)), c: at(x, j(px))}, [], "elimination coefficient",
                                  fld(Lt, 1, TRI)))
                keep.append(out[1])
            return top, mm, out
        k = fresh_row(op, p, e, S, body)
        for q in op.T.bodies(e[1]):
            st = [s for s in q.stores() if s.base == p_out]
            if m.null[p_out]:
                if st:
                    raise Bad(loc(st[0]), "the row numbers are written although no table was given")
            elif [(s.addr, s.val) for s in st] != [(el(p_out, k), io)]:
                raise Bad(loc(st[0]) if st else loc(q), "the original number of each row is not recorded where the row goes")
        if not m.null[Lt]:
            end = [s for s in p.stores() if s.addr == ("fld", Lt, TRI, 1)]
            if not end or end[-1].val not in {s.outer for s in keep if hasattr(s, "outer")}:
                raise Bad(loc(end[-1]) if end else op.name, "the number of entries of L is not updated")
        elif [s for s in p.stores() if s.addr[0] == "fld" and s.addr[1] == Lt]:
            raise Bad(op.name, "L is written although it was not given")


def columns(op, p, before, Q, qinv, m):
    """Q lists the columns without pivot, in order"""
    ev = [f for f in op.rel(p, {Q}) if p.events.index(f) <= p.events.index(before)]
    ev = [f for f in ev if f is not before]
    if len(ev) != 1 or isinstance(ev[0], Store) or ev[0][0] != "loop":
        raise Bad(op.name, "the columns without pivot are not listed once, before they are used")
    f = ev[0]
    s = Stream({Q}, lambda j: [("lt0", at(qinv, j))], lambda j: {Q: j}, [], "column without pivot")
    s.ph = position(op, p, None, f, s)
    if f[2].get(s.ph) != C(0):
        raise Bad(loc(f[1]), "the list of columns without pivot does not start at 0")
    full = Path0(p)
    entries(op, full, f, C(0), m, [s])


class Path0:
    def __init__(self, p):
        self.facts = ()


def gathered(op, q, S, k, Sm, tag, x, Q, after):
    """row k of the dense block receives x[Q[0..Sm)]"""
    ev = op.rel(q, {S})
    if not ev and op.empty(q, C(0), Sm):
        return None
    if len(ev) != 1 or isinstance(ev[0], Store) or ev[0][0] != "loop":
        raise Bad(loc(q), "a row of the dense block is not filled by exactly one loop")
    f = ev[0]
    g = op.counter(f[1], f[2], C(0), Sm, "the columns of the dense block")
    v = at(x, at(Q, g))
    place = add(mul(k, Sm), g)
    for s in op.T.bodies(f[1]):
        ws = s.calls("spasm_datatype_write")
        st = s.stores()
        if len(ws) == 1 and not st:
            to, off = el_split(ws[0][2][0])
            if (to, add(off, ws[0][2][1])) + ws[0][2][2:] != (S, place, tag, v):
                raise Bad(ws[0][3].loc, "element %s receives %s, not %s at %s" % (
                    show(ws[0][2][1]), show(ws[0][2][3]), show(v), show(place)))
            continue
        if ws or len(st) != 1:
            raise Bad(loc(s), "not exactly one element is written for each column")
        if st[0].addr != el(S, place):
            raise Bad(loc(st[0]), "%s is written, not %s" % (show(st[0].addr), show(el(S, place))))
        w = st[0].val
        while w[0] == "fop" and w[1] in ("sitofp", "fpext", "fptrunc"):
            w = w[2]
        if w != v:
            raise Bad(loc(st[0]), "%s receives %s, not %s" % (show(st[0].addr), show(st[0].val), show(v)))
    if q.events.index(f) < q.events.index(after):
        raise Bad(loc(f[1]), "the row is copied before it is reduced")
    w = same_until(op, q, after, f, {x, Q})
    if w is not None:
        raise Bad(loc(w) if isinstance(w, Store) else loc(q), "the row is changed before it is copied")
    return f


def dense(op, m):
    A, P, n, p_in, F, S, tag, Q, p_out = [arg(k) for k in range(9)]
    U, qinv, Lt = fld(F, 3, LU), fld(F, 4, LU), fld(F, 6, LU)
    mm = fld(A, 2)
    Sm = add(mm, fld(U, 1), -1)
    op.readonly(P, p_in)
    for p in op.paths():
        ls = [e for e in p.loops() if S in op.reach(e[1])]
        if not ls and op.empty(p, C(0), n):
            continue
        if len(ls) != 1:
            raise Bad(op.name, "not exactly one loop over the rows")
        e = ls[0]
        columns(op, p, e, Q, qinv, mm)
        k = op.counter(e[1], e[2], C(0), n, "the rows")
        row = at(P, k)
        io = original(m, p_in, row)
        for q in op.T.bodies(e[1]):
            st = [s for s in q.stores() if s.base == p_out]
            if [(s.addr, s.val) for s in st] != [(el(p_out, k), io)]:
                raise Bad(loc(st[0]) if st else loc(q), "the original number of each row is not recorded where the row goes")
            c, top, xj, x = solved(op, q, U, A, row, qinv)
            ev = [f for f in op.rel(q, {x}) if q.events.index(f) <= q.events.index(c)]
            if ev[-1] is not c or len(ev) != 2 or not op.filled(ev[0], x, mm, 0):
                if not (len(ev) == 1 and op.empty(q, C(0), mm)):
                    raise Bad(c[3].loc, "the work vector is not cleared on every column before each row")
            gathered(op, q, S, k, Sm, tag, x, Q, c)
            Ls = {fld(Lt, i, TRI) for i in (4, 5, 6)} | {Lt}
            en = [f for f in q.loops() if op.reach(f[1]) & Ls]
            if m.null[Lt]:
                if en:
                    raise Bad(loc(en[0][1]), "L is written although it is not there")
                continue
            if len(en) != 1:
                if not en and op.empty(q, top, mm):
                    continue
                raise Bad(loc(q), "the elimination coefficients are not recorded by exactly one loop")
            w = same_until(op, q, c, en[0], {x, xj})
            if w is not None or q.events.index(en[0]) < q.events.index(c):
                raise Bad(loc(en[0][1]), "the row is changed before its elimination coefficients are recorded")
            px = op.counter(en[0][1], en[0][2], top, mm, "the pattern of the row")
            j = at(xj, px)
            for s in op.T.bodies(en[0][1]):
                triplet_append(op, s, Lt, (io, at(qinv, j), at(x, j)), [nonneg(at(qinv, j)), ("ne0", at(x, j))],
                               "elimination coefficient")


def randomized(op, m):
    A, P, n, U, qinv, S, tag, Q, N, w = [arg(k) for k in range(10)]
    mm = fld(A, 2)
    Sm = add(mm, fld(U, 1), -1)
    op.readonly(P)
    for p in op.paths():
        ls = [e for e in p.loops() if S in op.reach(e[1])]
        if not ls and op.empty(p, C(0), N):
            continue
        if len(ls) != 1:
            raise Bad(op.name, "not exactly one loop over the combinations")
        e = ls[0]
        columns(op, p, e, Q, qinv, mm)
        k = op.counter(e[1], e[2], C(0), N, "the combinations")
        for q in op.T.bodies(e[1]):
            g = [f for f in q.loops() if S in op.reach(f[1])]
            ys = set()
            for f in g:
                for s in op.T.bodies(f[1]):
                    for v in [t.val for t in s.stores()] + [c[2][3] for c in s.calls("spasm_datatype_write")]:
                        ys |= {el_split(t[1])[0] for t in walk(v) if t[0] == "ld" and el_split(t[1])[0] != Q
                               and el_split(t[1])[0][0] == "call"}
            if len(ys) != 1:
                raise Bad(loc(q), "a combination is not copied from one work vector")
            y = ys.pop()
            ev = [f for f in op.rel(q, {y})]
            if len(ev) != 3:
                raise Bad(loc(q), "the steps are not: clear, combine, eliminate")
            if not op.filled(ev[0], y, mm, 0):
                raise Bad(loc(q), "the work vector is not cleared on every column before each combination")
            combine(op, q, ev[1], A, P, n, w, y)
            eliminate(op, q, ev[2], U, y)
            gathered(op, q, S, k, Sm, tag, y, Q, ev[2])
            sd = q.calls("spasm_prng_seed", "spasm_prng_seed_simple")
            for c in sd:
                if not any(x in list(walk(a)) for a in c[2] for x in [t for t in walk(k) if t[0] == "phi"]):
                    raise Bad(c[3].loc, "every combination is drawn from the same stream of coefficients")


def combine(op, q, f, A, P, n, w, y):
    if isinstance(f, Store) or f[0] != "loop":
        raise Bad(loc(q), "the rows are not combined by a loop")
    i = op.T.counter(f[1], f[2], C(0), n)
    some = op.T.counter(f[1], f[2], C(0), w)
    if i is None and some is None:
        raise Bad(loc(f[1]), "the combination takes neither all rows nor the number of rows asked for")
    if i is not None and not implied(("lt0", add(w, C(-1))), q.facts):
        raise Bad(loc(f[1]), "all rows are combined although a number of rows was asked for")
    if i is None and not implied(("lt0", add(C(0), w, -1)), q.facts):
        raise Bad(loc(f[1]), "only some rows are combined although all of them were asked for")
    for s in op.T.bodies(f[1]):
        ad = op.rel(s, {y})
        if len(ad) != 1 or isinstance(ad[0], Store):
            raise Bad(loc(s), "not exactly one row is added at each step")
        rn = s.calls("spasm_prng_ZZp")
        co = tuple(("call", "spasm_prng_ZZp", c[3]) for c in rn)
        if i is not None:
            if len(rn) != 1:
                raise Bad(loc(s), "a row is not multiplied by one random coefficient")
            op.row_add(ad[0], A, at(P, i), co, y, s.facts)
            continue
        c = ad[0]
        r = c[2][1] if c[0] == "call" and c[1] == "spasm_scatter" else None
        if r is None or r[0] not in ("ld", "ldv") or el_split(r[1])[0] != P:
            raise Bad(c[3].loc if c[0] == "call" else loc(s), "the rows combined are not taken from the list")
        first = implied(("eq0", some), s.facts)
        if not co and not first:
            raise Bad(c[3].loc, "a row beyond the first is not multiplied by a random coefficient")
        op.row_add(c, A, r, co or (C(1),), y, s.facts)


def eliminate(op, q, f, U, y):
    if isinstance(f, Store) or f[0] != "loop":
        raise Bad(loc(q), "the pivots are not eliminated by a loop")
    i = op.counter(f[1], f[2], C(0), fld(U, 1), "the rows of U")
    if not op.asc(f[1], i, 1):
        raise Bad(loc(f[1]), "the rows of U are not processed in order")
    v = at(y, at(fld(U, 4), at(fld(U, 3), i)))
    for s in op.T.bodies(f[1]):
        ad = op.rel(s, {y})
        if not ad and implied(("eq0", v), s.facts):
            continue
        if len(ad) != 1:
            raise Bad(loc(s), "a pivot is not eliminated exactly once")
        op.row_add(ad[0], U, i, opp(v), y, s.facts)


def check(b, rep):
    rep.expl = ("Loop-nest extraction by path-wise symbolic execution of the IR of the sequential reading of the library, with "
                "and without L and row tables and for each element type, matched against the definition of a Schur complement.")
    for r, t in (("sparse", "row i: the non-zero coefficients of the reduced row p[i] on columns without pivot; the others go to L"),
                 ("dense", "row k of the block: the coefficients of the reduced row p[k] on the listed columns without pivot"),
                 ("random", "row k of the block: a random combination of the rows, reduced, on the listed columns without pivot")):
        rep.rule(r, t)
    M = b.lib(omp=False)
    ck = Check28(rep, M)
    ck.run("sparse", "spasm_schur", modes([arg(5), arg(6), arg(7)]), schur)
    ck.run("dense", "spasm_schur_dense", tagged(arg(6), [arg(3), fld(arg(4), 6, LU)]), dense)
    ck.run("random", "spasm_schur_dense_randomized", tagged(arg(6)), randomized)
    rep.assumptions.append("distinct array arguments of one call do not overlap; read-only inputs are not changed (P01)")


if __name__ == "__main__":
    sys.exit(run("P29", check))
