"""P32: matchings are transported, and the block decomposition laid out, as documented."""
from common import *
import sym
import nest
from sym import C, add, el, el_split, mul, neg_cond, show, walk
from nest import Store
from p27 import Bad, arg, at, fld, implied, loc, modes, nonneg
from p28 import Check28
from p31 import DM, set_all

RR, CC = 5, 6


# ------------------------------------------------------------------ transported matchings
def table(op, p, size):
    """the table allocated and returned"""
    R = p.ret
    if R is None or R[0] != "call" or R[1] not in ("spasm_malloc", "spasm_calloc", "malloc", "calloc"):
        raise Bad(op.name, "no new table is returned")
    c = [e for e in p.calls(R[1]) if e[3] is R[2]]
    a = c[0][2]
    if a[0] != mul(size, C(4)) and (len(a) < 2 or set(a) != {size, C(4)}):
        raise Bad(c[0][3].loc, "the table has %s bytes, not room for %s numbers" % (show(a[0]), show(size)))
    return R


def transported(op, size, src, place, val):
    for p in op.paths():
        R = table(op, p, size)
        ev = op.rel(p, {R})
        if not ev and op.empty(p, C(0), size):
            continue
        fills = [e for e in ev if op.filled(e, R, size, -1)]
        if fills and fills[0] is ev[0]:
            ev = ev[1:]
        if len(ev) != 1 or isinstance(ev[0], Store) or ev[0][0] != "loop":
            raise Bad(op.name, "the table is not filled by one loop")
        e = ev[0]
        i = op.counter(e[1], e[2], C(0), size, "the table")
        s = src(i)
        for q in op.T.bodies(e[1]):
            st = {x.addr: x for x in q.stores()}
            if q.loops() or set(st) - {el(R, i)}:
                raise Bad(loc(q), "something else than element %s is written" % show(i))
            v = st[el(R, i)].val if st else C(-1) if fills else None
            if v is None:
                raise Bad(loc(q), "an element is not set")
            if v == C(-1) or v == s:
                if not implied(("lt0", s), q.facts):
                    raise Bad(loc(q), "a matched row or column becomes unmatched")
            elif v != val(s):
                raise Bad(loc(st[el(R, i)]), "%s receives %s, not %s" % (show(el(R, i)), show(v), show(val(s))))
            elif not implied(nonneg(s), q.facts):
                raise Bad(loc(q), "an unmatched row or column gets a partner")


def permuted(op, m):
    n, match, p, q = [arg(k) for k in range(4)]
    op.readonly(match, p, q)
    transported(op, n, lambda i: at(match, at(p, i)), None, lambda s: at(q, s))


def permuted_columns(op, m):
    n, match, p, q = [arg(k) for k in range(4)]
    op.readonly(match, p, q)
    transported(op, n, lambda i: at(match, at(q, i)), None, lambda s: at(p, s))


def submatching(op, m):
    match, a, b, c, d = [arg(k) for k in range(5)]
    op.readonly(match)
    transported(op, add(b, a, -1), lambda i: at(match, add(i, a)), None, lambda s: add(s, c, -1))


# ------------------------------------------------------------------ block decomposition
class Marks:
    pass


def search(op, p, evs, A, wi, wj, imatch, jmatch, n, mark, what):
    """events: the free nodes are enqueued, then everything reachable by alternating paths is marked"""
    if len(evs) != 2 or any(isinstance(e, Store) or e[0] != "loop" for e in evs):
        raise Bad(op.name, "the search from the %s is not: enqueue, then follow" % what)
    a, b = evs
    T = op.T
    i = T.counter(a[1], a[2], C(0), n)
    if i is None:
        i = op.counter(a[1], a[2], C(0), fld(A, 1), "the " + what)
    qs = {s.base for q in T.bodies(a[1]) for s in q.stores()} - {wi}
    if len(qs) != 1:
        raise Bad(loc(a[1]), "the unmatched %s are not put in one queue" % what)
    queue = qs.pop()
    tail = None
    for q in T.bodies(a[1]):
        st = {s.addr: s.val for s in q.stores()}
        if not st:
            if not implied(nonneg(at(jmatch, i)), q.facts):
                raise Bad(loc(q), "one of the %s is left out although it may be unmatched" % what)
            continue
        if not implied(("lt0", at(jmatch, i)), q.facts):
            raise Bad(loc(q), "one of the %s is taken although it may be matched" % what)
        ts = [s for s in q.stores() if s.base == queue]
        if len(ts) != 1 or ts[0].idx[0] != "phi" or ts[0].val != i or st.get(el(wi, i)) != C(0) or len(st) != 2:
            raise Bad(loc(q), "an unmatched one of the %s is not marked 0 and enqueued" % what)
        t = ts[0].idx[1]
        if tail not in (None, t) or q.next.get(t) != add(("phi", t), C(1)) or a[2].get(t) != C(0):
            raise Bad(loc(ts[0]), "the queue is not filled one after the other")
        tail = t
    for q in T.bodies(a[1]):
        if not q.stores() and q.next.get(tail) != ("phi", tail):
            raise Bad(loc(q), "the queue grows without an element")
    L, init = b[1:3]
    tl = [ph for ph in L.header.phis if init.get(ph) == ("phi", tail)]
    if len(tl) != 1:
        raise Bad(loc(L), "the queue of the %s is not followed" % what)
    tl = tl[0]
    hd = [ph for ph in L.header.phis if init.get(ph) == C(0) and all(
        q.next[ph] == add(("phi", ph), C(1)) for q in T.bodies(L))]
    if len(hd) != 1:
        raise Bad(loc(L), "the queue is not read one after the other from its start")
    hd = ("phi", hd[0])
    for ed in T.exits(L):
        for s in T.left(L, ed):
            if not implied(nonneg(add(hd, ("phi", tl), -1)), s.facts):
                raise Bad(loc(L), "the search ends before the queue is empty")
    node = at(queue, hd)
    Ap, Aj = fld(A, 3), fld(A, 4)
    for q in T.bodies(L):
        if q.stores():
            raise Bad(loc(q.stores()[0]), "unexpected write")
        ls = q.loops()
        if not ls and op.empty(q, at(Ap, node), at(Ap, add(node, C(1)))):
            continue
        if len(ls) != 1:
            raise Bad(loc(q), "the neighbours are not examined by one loop")
        f = ls[0]
        px = op.counter(f[1], f[2], at(Ap, node), at(Ap, add(node, C(1))), "the neighbours")
        j = at(Aj, px)
        I = at(imatch, j)
        t2 = [ph for ph in f[1].header.phis if f[2].get(ph) == ("phi", tl)]
        if len(t2) != 1 or q.next.get(tl) != ("phi", t2[0]):
            raise Bad(loc(f[1]), "the end of the queue is not carried on")
        t2 = t2[0]
        for s in T.bodies(f[1]):
            st = {x.addr: x.val for x in s.stores()}
            jnew = implied(("lt0", at(wj, j)), s.facts)
            grow = add(s.next[t2], ("phi", t2), -1)
            if el(wj, j) not in st:
                if not implied(nonneg(at(wj, j)), s.facts):
                    raise Bad(loc(s), "a neighbour is left out although it may not have been marked")
                if st or grow != C(0):
                    raise Bad(loc(s), "a neighbour already marked has an effect")
                continue
            if not jnew:
                raise Bad(loc(s), "a mark may be overwritten")
            if st.pop(el(wj, j)) != C(mark):
                raise Bad(loc(s), "a neighbour does not get the mark %d" % mark)
            if not st and grow == C(0):
                if not implied(nonneg(at(wi, I)), s.facts):
                    raise Bad(loc(s), "the partner of a neighbour is left out although it may not have been marked")
                continue
            if not implied(("lt0", at(wi, I)), s.facts):
                raise Bad(loc(s), "a partner may be enqueued twice")
            if st != {el(wi, I): C(mark), el(queue, ("phi", t2)): I} or grow != C(1):
                raise Bad(loc(s), "the partner of a neighbour is not marked %d and enqueued" % mark)
    return queue


def collected(op, e, w, mark, n, want):
    """loop event e appends, for each t with w[t] == mark, want[array](t) to the arrays; returns {array: chain phi}"""
    T = op.T
    t = T.counter(e[1], e[2], C(0), n)
    if t is None:
        return None
    eq = ("lt0", at(w, t)) if mark == -1 else ("eq0", add(at(w, t), C(-mark)))
    out = {}
    for q in T.bodies(e[1]):
        st = q.stores()
        if not st:
            if not implied(neg_cond(eq), q.facts):
                return None
            continue
        if not implied(eq, q.facts) or q.loops() or len(st) != len(want):
            return None
        for s in st:
            if s.base not in want or s.idx[0] != "phi" or s.val != want[s.base](t):
                return None
            ph = s.idx[1]
            if q.next.get(ph) != add(("phi", ph), C(1)) or out.setdefault(s.base, ph) != ph:
                return None
    for q in T.bodies(e[1]):
        if not q.stores() and any(q.next.get(ph) != ("phi", ph) for ph in out.values()):
            return None
    return out if out else None


def decomposition(op, m):
    A = arg(0)
    n, mm = fld(A, 1), fld(A, 2)
    T = op.T
    for p in op.paths():
        tr = p.calls("spasm_transpose")
        mt = p.calls("spasm_maximum_matching")
        al = p.calls("spasm_dm_alloc")
        if len(tr) != 1 or tr[0][2][0] != A:
            raise Bad(op.name, "the transpose of the matrix is not computed once")
        At = ("call", "spasm_transpose", tr[0][3])
        if len(al) != 1 or al[0][2] != (n, mm) or p.ret != ("call", "spasm_dm_alloc", al[0][3]):
            raise Bad(op.name, "a decomposition of the size of the matrix is not returned")
        D = p.ret
        P, Q, R, Cl = [fld(D, k, DM) for k in range(4)]
        if len(mt) != 1 or mt[0][2][0] not in (A, At):
            raise Bad(op.name, "the matching of the matrix is not computed once")
        a = mt[0][2]
        jm, im = (a[1], a[2]) if a[0] == A else (a[2], a[1])
        for W, sz, nm in ((jm, n, "row"), (im, mm, "column")):
            if W[0] != "call" or [e[2][0] for e in p.events if not isinstance(e, Store) and e[0] == "call" and e[3] is W[2]] != [mul(sz, C(4))]:
                raise Bad(mt[0][3].loc, "the table of matched %ss does not have the size of the matrix" % nm)
        ls = p.loops()
        k0 = p.events.index(mt[0])
        ls = [e for e in ls if p.events.index(e) > k0]
        # the marks: the arrays tested by the collecting loops and set to -1 everywhere
        wi = wj = None
        for e in ls:
            ri = T.counter(e[1], e[2], C(0), n)
            rj = T.counter(e[1], e[2], C(0), mm) or T.counter(e[1], e[2], C(0), fld(At, 1))
            for x in (x for q in T.bodies(e[1]) for x in q.stores()):
                if x.val == C(0) and ri is not None and x.idx == ri and wi is None:
                    wi = x.base
                elif x.val == C(0) and rj is not None and x.idx == rj and wj is None:
                    wj = x.base
        if wi is None or wj is None or wi == wj:
            raise Bad(op.name, "the unmatched rows and the unmatched columns are not both marked")
        marks = {}
        for e in p.events:
            if isinstance(e, Store):
                continue
            for W, sz in ((wi, n), (wj, mm)):
                if e[0] == "loop" and W in op.reach(e[1]) and set_all(op, e, W, sz, -1) or \
                        e[0] == "call" and op.filled(e, W, sz, -1):
                    marks[W] = e
        if set(marks) != {wi, wj}:
            raise Bad(op.name, "not every row and column is unmarked before the searches")
        # the two searches: pairs of loops writing to the marks
        ws = [e for e in op.rel(p, {wi, wj}) if e not in marks.values()]
        loops = [e for e in ws if not isinstance(e, Store) and e[0] == "loop"]
        if len(loops) < 4:
            raise Bad(op.name, "the unmatched rows and the unmatched columns are not both followed")
        if any(p.events.index(e) > p.events.index(loops[0]) for e in marks.values()):
            raise Bad(op.name, "the marks are cleared after a search has started")
        done = set()
        for pair in (loops[0:2], loops[2:4]):
            first = pair[0]
            onrows = wi in op.reach(first[1])
            if onrows:
                search(op, p, pair, A, wi, wj, im, jm, n, 3, "rows")
            else:
                search(op, p, pair, At, wj, wi, jm, im, mm, 1, "columns")
            done.add(onrows)
        if len(done) != 2:
            raise Bad(op.name, "the unmatched rows and the unmatched columns are not both followed")
        end = p.events.index(loops[3])
        for e in loops[:4]:
            x = [f for f in ws if f is not e and p.events.index(f) < end and f not in loops]
            if x:
                raise Bad(loc(x[0]) if isinstance(x[0], Store) else op.name, "a mark changes between the searches")
        # what is collected, in order
        cs = [e for e in p.events[end + 1:] if (isinstance(e, Store) and e.base in (P, Q)) or
              (not isinstance(e, Store) and e[0] == "loop" and op.reach(e[1]) & {P, Q})]
        ident = lambda t: t
        steps = [("C0", wj, 0, mm, {Q: ident}), ("C1, R1", wj, 1, mm, {Q: ident, P: lambda t: at(im, t)}),
                 ("C2, R2", wj, -1, mm, {Q: ident, P: lambda t: at(im, t)}),
                 ("C3, R3", wj, 3, mm, {Q: ident, P: lambda t: at(im, t)}), ("R0", wi, 0, n, {P: ident})]
        place = {P: None, Q: None}
        ends = {P: [], Q: []}
        left = list(cs)
        for nm, w, mark, sz, want in steps:
            e = None
            for f in left:
                if isinstance(f, Store):
                    raise Bad(loc(f), "unexpected write")
                got = collected(op, f, w, mark, sz, want)
                if got is not None:
                    e = f
                    break
            if e is None:
                raise Bad(loc(left[0][1]) if left else op.name, "%s are not listed as documented" % nm)
            left.remove(e)
            for W, ph in got.items():
                v = e[2].get(ph)
                if place[W] is None:
                    if not (v == C(0) or v is not None and v[0] in ("ld", "ldv") and boundary(v, D) and boundary(v, D)[1] == 0):
                        raise Bad(loc(e[1]), "%s do not start at 0" % nm)
                elif v != ("phi", place[W]):
                    b = boundary(v, D) if v is not None else None
                    if not (b and last_value(op, p, e, v[1]) == ("phi", place[W])):
                        raise Bad(loc(e[1]), "%s do not follow the previous class" % nm)
                place[W] = ph
                ends[W].append(("phi", ph))
        if left:
            raise Bad(loc(left[0]) if isinstance(left[0], Store) else loc(left[0][1]), "unexpected write to the row or column order")
        want = {}
        for k in range(4):
            want[(RR, k + 1)] = ends[P][k]
            want[(CC, k + 1)] = ends[Q][k]
        got = {}
        for s in p.stores():
            b = cell(s.addr, D)
            if b:
                got[b] = s
        for b, v in want.items():
            if b not in got or value(op, p, got[b], got[b].val, D) != v:
                raise Bad(loc(got[b]) if b in got else op.name, "limit %d of the %s classes is not where that class ends" % (
                    b[1], "row" if b[0] == RR else "column"))
        for b in got:
            if b[1] not in (1, 2, 3, 4) and not (b[1] == 0 and got[b].val == C(0)):
                raise Bad(loc(got[b]), "unexpected class limit")
        fine(op, p, A, D, P, Q, R, Cl, n, mm, ends)


def array_of(op, t, D):
    return el_split(t)[0]


def cell(a, D):
    """(field, index) of a class limit"""
    base, idx = el_split(a)
    if idx[0] != "c":
        return None
    for k in (RR, CC):
        if base[0] in ("fld", "ptr", "addr") and base[-1] == k or base == ("fld", D, DM, k):
            if any(x == D for x in walk(base)):
                return k, idx[1]
    return None


def boundary(v, D):
    return cell(v[1], D) if v[0] in ("ld", "ldv") else None


def last_value(op, p, before, a):
    v = None
    for e in p.events:
        if e is before:
            break
        if isinstance(e, Store) and e.addr == a:
            v = e.val
    return v


def value(op, p, ev, v, D, depth=0):
    """class limits read back stand for what was stored in them"""
    def f(x):
        if x[0] in ("ld", "ldv") and cell(x[1], D):
            w = last_value(op, p, ev, x[1])
            return w
        return None
    return sym.subst(v, f)


def fine(op, p, A, D, P, Q, R, Cl, n, mm, ends):
    r1, r2, c2, c3 = ends[P][0], ends[P][1], ends[Q][1], ends[Q][2]
    sc = p.calls("spasm_strongly_connected_components")
    size = (add(r2, r1, -1), add(c3, c2, -1))
    if not sc:
        fs = [value(op, p, None, f, D) for f in p.facts]
        if not any(implied(c, fs) for d in size for c in (("eq0", d), nonneg(add(C(0), d, -1)))):
            raise Bad(op.name, "the square part is not refined although it may not be empty")
        return
    c = sc[0]
    V = lambda e, t: value(op, p, e, t, D)
    sub = [e for e in p.calls("spasm_submatrix") if ("call", "spasm_submatrix", e[3]) == c[2][0]]
    pm = p.calls("spasm_permute")
    if len(sc) != 1 or len(sub) != 1 or len(pm) != 1:
        raise Bad(c[3].loc, "the components are not those of the square part")
    b = ("call", "spasm_permute", pm[0][3])
    a = tuple(V(sub[0], x) for x in sub[0][2])
    if a[:5] != (b, r1, r2, c2, c3):
        raise Bad(sub[0][3].loc, "what is extracted is not rows R2 and columns C2 of the permuted matrix")
    qi = [e for e in p.calls("spasm_pinv") if ("call", "spasm_pinv", e[3]) == pm[0][2][2]]
    if norm(pm[0][2][0]) != A or norm(pm[0][2][1]) != P or not qi or norm(qi[0][2][0]) != Q or qi[0][2][1] != mm:
        raise Bad(pm[0][3].loc, "the matrix is not permuted by the row order and the inverse of the column order")
    S = ("call", "spasm_strongly_connected_components", c[3])
    rg = [tuple(norm(V(e, x)) for x in e[2]) for e in p.calls("spasm_range_pvec")]
    want = [(P, r1, r2, fld(S, 0, DM)), (Q, c2, c3, fld(S, 1, DM))]
    if sorted(rg, key=repr) != sorted(want, key=repr):
        e = p.calls("spasm_range_pvec")
        raise Bad(e[0][3].loc if e else c[3].loc, "the orders of the components are not applied to the rows and columns of the square part")
    if any(p.events.index(e) < p.events.index(c) for e in p.calls("spasm_range_pvec")) or p.events.index(pm[0]) > p.events.index(sub[0]):
        raise Bad(c[3].loc, "the square part is reordered before it is extracted")
    N = fld(S, 4, DM)
    k0 = p.events.index(c)
    for W, base, k, total, nm in ((R, r1, 2, n, "row"), (Cl, c2, 3, mm, "column")):
        ev = [e for e in op.rel(p, {W}) if p.events.index(e) > k0]
        cells = {}
        lp = [e for e in ev if not isinstance(e, Store)]
        for e in ev:
            if isinstance(e, Store):
                cells[e.idx] = e
        if len(lp) != 1 or lp[0][0] != "loop":
            raise Bad(c[3].loc, "the %s limits of the blocks are not set by one loop" % nm)
        lo = lp[0]
        t = T_counter(op, lo, N)
        if t is None:
            raise Bad(loc(lo[1]), "not every component gives its %s limit" % nm)
        src = fld(S, k, DM)
        for q in op.T.bodies(lo[1]):
            st = [s for s in q.stores() if s.base == W]
            w = V(lo, st[0].val) if st else None
            if len(st) != 1 or st[0].idx != add(t, C(1)) or strip(w) != add(base, at(src, t)):
                raise Bad(loc(st[0]) if st else loc(q), "the %s limits of the components are not shifted to the square part" % nm)
        z = cells.pop(C(0), None)
        if z is None or z.val != C(0):
            raise Bad(loc(z) if z else c[3].loc, "the first block does not start at %s 0" % nm)
        z = [x for i, x in cells.items() if strip(i) == add(N, C(2))]
        if len(z) != 1 or len(cells) != 1 or z[0].val != total:
            raise Bad(c[3].loc, "the last block does not end at the last %s" % nm)
        if p.events.index(z[0]) < p.events.index(lo) and False:
            raise Bad(loc(z[0]), "")
    nb = [s for s in p.stores() if s.addr == ("fld", D, DM, 4)]
    if not nb or strip(nb[-1].val) != add(N, C(2)):
        raise Bad(loc(nb[-1]) if nb else c[3].loc, "the number of blocks is not that of the components plus two")


def norm(t):
    return strip(t)


def strip(t):
    """reloads of the same field of a decomposition are the same value"""
    return sym.subst(t, lambda x: ("ld", x[1]) if x[0] == "ldv" and x[1][0] == "fld" else None)


def T_counter(op, e, N):
    """counter over 0..N"""
    T = op.T
    for r in nest.loop_ranges(op.S, e[1]):
        st = e[2].get(r.phi)
        if st is None:
            continue
        if r.step == 1:
            sh = add(C(0), st, -1)
            if strip(add(T.norm(r.hi), sh)) == add(N, C(1)):
                return add(r.term, sh)
        if r.step == -1:
            sh = add(C(0), T.norm(r.lo), -1)
            if strip(add(add(st, C(1)), sh)) == add(N, C(1)):
                return add(r.term, sh)
    return None


def check(b, rep):
    rep.expl = ("Loop-nest extraction by path-wise symbolic execution of the IR (helpers inlined), matched against the "
                "documented definition of each table: index formulas, classes, order, limits.")
    for r, t in (("transport", "element i of the result = image of the partner of the i-th row (column) of the permuted or extracted matrix"),
                 ("blocks", "q = C0 C1 C2 C3, p = R1 R2 R3 R0, classes by alternating searches, limits, components of the square part")):
        rep.rule(r, t)
    M = b.lib(omp=False)
    ck = Check28(rep, M)
    ck.run("transport", "spasm_permute_row_matching", modes(), permuted)
    ck.run("transport", "spasm_permute_column_matching", modes(), permuted_columns)
    ck.run("transport", "spasm_submatching", modes(), submatching)
    ck.run("blocks", "spasm_dulmage_mendelsohn", modes(), decomposition)
    rep.assumptions.append("distinct array arguments of one call do not overlap; the matching has maximal size (P31)")


if __name__ == "__main__":
    sys.exit(run("P32", check))
