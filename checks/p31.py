"""P31: graph searches examine every neighbour and record every node exactly once."""
from common import *
import sym
import nest
import p27
from sym import C, add, el, el_split, neg_cond, show, subst, walk
from nest import Store
from p27 import NULL, Bad, arg, at, fld, implied, loc, modes, nonneg
from p28 import Check28, same_until
from trips import contradicts

DM = "spasm_dm"


def reads(t, addr):
    """the term is the content of that cell, whenever it was read"""
    return t[0] in ("ld", "ldv") and t[1] == addr


class Scan:
    """a loop over the rest of a row of A, from its k0-th entry on; `col` is the column met, `X` its position"""

    def __init__(self, op, e, A, row):
        self.op, self.e, self.L, self.edge = op, e, e[1], e[3]
        Aj, Ap = fld(A, 4), fld(A, 3)
        T = op.T
        pos = set()
        for q in T.trips(self.L):
            for f in list(q.facts) + [s.addr for s in q.stores()] + [s.val for s in q.stores()]:
                for x in walk(f):
                    if x[0] == "ld" and x[1][0] == "el" and el_split(x[1])[0] == Aj:
                        pos.add(el_split(x[1])[1])
        self.ok = False
        for X in sorted(pos, key=sym.key):
            for r in nest.loop_ranges(op.S, self.L):
                if r.step != 1 or r.term != ("phi", r.phi) or e[2].get(r.phi) is None:
                    continue
                s = add(X, r.term, -1)
                if any(x[0] == "phi" and x[1].block is self.L.header for x in walk(s)):
                    continue
                end = add(T.norm(r.hi), s)
                if end != at(Ap, add(row, C(1))):
                    continue
                self.ok = True
                self.X, self.phi, self.hi = X, r.phi, T.norm(r.hi)
                self.start = add(add(e[2][r.phi], s), at(Ap, row), -1)    # relative to the row
                self.rel = add(X, at(Ap, row), -1)
                self.width = add(end, at(Ap, row), -1)
                self.col = at(Aj, X)
        if not self.ok:
            return
        self.d = add(("phi", self.phi), self.hi, -1)
        ends = T.left(self.L, self.edge)
        self.ends = ends
        self.done = bool(ends) and all(implied(nonneg(self.d), s.facts) for s in ends)

    def feasible(self, q):
        if self.done:
            for f in q.facts:
                g = subst(f, lambda t: self.hi if t == ("phi", self.phi) else None)
                if g[0] in ("eq0", "ne0", "lt0") and g[1][0] == "c":
                    v = g[1][1]
                    if not (v == 0 if g[0] == "eq0" else v != 0 if g[0] == "ne0" else v < 0):
                        return False
            return True
        return not any(contradicts(f, ("lt0", self.d)) for f in q.facts)


def is_scan(op, e, A, row):
    if isinstance(e, Store) or e[0] != "loop":
        return None
    s = Scan(op, e, A, row)
    return s if s.ok else None


def resolved(t, fs):
    """the term, given what is known"""
    def f(x):
        if x[0] == "sel":
            if implied(x[1], fs):
                return resolved(x[2], fs)
            if implied(neg_cond(x[1]), fs):
                return resolved(x[3], fs)
        return None
    return subst(t, f)


def stack_of(op, L, init, stack, base):
    """(stack height phi, offset d): the node on top is stack[h - d], and the loop ends when h < d"""
    for ph in L.header.phis:
        if init.get(ph) is None or init[ph][0] != "c":
            continue
        d = init[ph][1]
        if d in (0, 1) and all(implied(("lt0", add(("phi", ph), C(-d))), p.facts) for e in op.T.exits(L)
                               for p in op.T.left(L, e) if p.end is not base):
            return ph, d
    return None


def last_stores(q, base):
    out = {}
    for s in q.stores():
        if s.base == base:
            out[s.addr] = s
    return out


def resume_ok(v, scan):
    """everything before position v of the row has been examined"""
    return v in (add(scan.rel, C(1)), scan.rel, scan.start, add(scan.start, C(1)))


# ------------------------------------------------------------------ pattern search
def dfs(op, m):
    j0, A, t0, xj, pstack, marks, qinv = [arg(k) for k in range(7)]
    op.readonly(qinv)
    for p in op.paths():
        ls = p.loops()
        if len(ls) != 1:
            raise Bad(op.name, "the search is not one loop")
        e = ls[0]
        L, init = e[1:3]
        h = stack_of(op, L, init, xj, None)
        if h is None:
            raise Bad(loc(L), "the search does not end exactly when the stack is empty")
        H, d = h
        cell = el(xj, add(("phi", H), C(-d)))
        j = ("ld", cell)
        i = at(qinv, j)
        st = [s for s in p.stores() if s.base == xj]
        if [(s.addr, s.val) for s in st] != [(el(xj, C(0)), j0)]:
            raise Bad(op.name, "the stack does not start with the first column alone")
        T = [ph for ph in L.header.phis if init.get(ph) == t0]
        if len(T) != 1 or p.ret != ("phi", T[0]):
            raise Bad(op.name, "the start of the list of columns is not what is returned")
        T = T[0]
        if [s for s in p.stores() if s.base in (pstack, marks)]:
            raise Bad(op.name, "unexpected write before the search")
        for q in op.T.bodies(L):
            seen, new = ("ne0", at(marks, j)), ("eq0", at(marks, j))
            sc = [is_scan(op, f, A, i) for f in q.loops()]
            if None in sc or len(sc) > 1:
                raise Bad(loc(q), "not every remaining entry of the row of the pivot is examined")
            sc = sc[0] if sc else None
            if sc and not sc.feasible(q):
                continue
            ms = [s for s in q.stores() if s.base == marks]
            if any(s.addr != el(marks, j) or s.val in (C(0),) or s.val[0] != "c" for s in ms):
                raise Bad(loc(ms[0]), "a column is marked that is not the one on top of the stack, or with 0")
            if not ms and not implied(seen, q.facts):
                raise Bad(loc(q), "a column is processed without being marked")
            pcell = el(pstack, add(("phi", H), C(-d)))
            ps = [s for s in q.stores() if s.base == pstack]
            nh, nt = add(q.next[H], ("phi", H), -1), add(q.next[T], ("phi", T), -1)
            xs = last_stores(q, xj)
            if sc:
                if not implied(nonneg(i), q.facts):
                    raise Bad(loc(sc.L), "the row of a pivot is examined without knowing that there is one")
                fresh = [s for s in ps if q.events.index(s) < q.events.index(sc.e)]
                if fresh:
                    if not implied(new, q.facts) or [(s.addr, s.val) for s in fresh] != [(pcell, C(0))]:
                        raise Bad(loc(fresh[0]), "the position in the row is changed before the row is examined")
                    if sc.start != C(0):
                        raise Bad(loc(sc.L), "a new column does not start at the beginning of the row")
                else:
                    if not implied(seen, q.facts):
                        raise Bad(loc(sc.L), "the position in the row is not set for a new column")
                    if not reads(sc.start, pcell):
                        raise Bad(loc(sc.L), "the row is not resumed where it was left")
                cm = at(marks, sc.col)
                for s in op.T.bodies(sc.L):
                    if s.stores() or s.loops():
                        raise Bad(loc(s), "unexpected write while the row is examined")
                    if not implied(("ne0", cm), s.facts):
                        raise Bad(loc(s), "a column is skipped although it may not have been seen yet")
                if not sc.done:
                    if nh != C(1) or nt != C(0):
                        raise Bad(loc(q), "the column found is not pushed on the stack")
                    if {a: s.val for a, s in xs.items()} != {el(xj, add(("phi", H), C(1 - d))): sc.col}:
                        raise Bad(loc(list(xs.values())[0]) if xs else loc(q), "the column found is not what is put on top of the stack")
                    if not all(implied(("eq0", cm), s.facts) for s in sc.ends):
                        raise Bad(loc(sc.L), "a column may be pushed although it has been seen")
                    late = [s for s in ps if s not in fresh]
                    if not late or any(s.addr != pcell for s in late):
                        raise Bad(loc(q), "the position reached in the row is not saved")
                    if not resume_ok(late[-1].val, sc):
                        raise Bad(loc(late[-1]), "the row would be resumed at %s, past an entry not examined" % show(late[-1].val))
                    continue
            elif not implied(("lt0", i), q.facts):
                raise Bad(loc(q), "a column with a pivot leaves the stack before the row of its pivot was examined")
            if nh != C(-1) or nt != C(-1):
                raise Bad(loc(q), "a finished column does not move from the stack to the list")
            got = {a: s for a, s in xs.items()}
            to = el(xj, add(("phi", T), C(-1)))
            if set(got) != {to} or got[to].val != j:
                raise Bad(loc(list(xs.values())[0]) if xs else loc(q), "the finished column is not put at the front of the list")


def reach(op, m):
    A, B, k, l, xj, qinv = [arg(i) for i in range(6)]
    mm = fld(A, 2)
    for p in op.paths():
        ls = [e for e in p.loops() if any(q.calls("spasm_dfs") for q in op.T.trips(e[1]))]
        if not ls and op.empty(p, at(fld(B, 3), k), at(fld(B, 3), add(k, C(1)))):
            continue
        if len(ls) != 1:
            raise Bad(op.name, "not exactly one loop over row %s of B" % show(k))
        e = ls[0]
        px = op.counter(e[1], e[2], at(fld(B, 3), k), at(fld(B, 3), add(k, C(1))), "the entries of the row")
        j = at(fld(B, 4), px)
        T = [ph for ph in e[1].header.phis if e[2].get(ph) == mm]
        if len(T) != 1 or p.ret != ("phi", T[0]):
            raise Bad(op.name, "the start of the pattern is not what is returned")
        T = T[0]
        mark = at(xj, add(j, sym.mul(C(2), mm)))
        for q in op.T.bodies(e[1]):
            if q.stores():
                raise Bad(loc(q.stores()[0]), "unexpected write")
            cs = q.calls("spasm_dfs")
            if not cs:
                if not implied(("ne0", mark), q.facts):
                    raise Bad(loc(q), "a column of the row is skipped although it may not have been seen")
                if q.next[T] != ("phi", T):
                    raise Bad(loc(q), "the start of the pattern moves without a search")
                continue
            c = cs[0]
            if len(cs) > 1 or c[2][:4] != (j, A, ("phi", T), xj) or c[2][4] != el(xj, mm) or \
                    c[2][5] != el(xj, sym.mul(C(2), mm)) or c[2][6] != qinv:
                raise Bad(c[3].loc, "the search does not start from the column of the row with the shared tables")
            if not implied(("eq0", mark), q.facts):
                raise Bad(c[3].loc, "a search may start from a column already in the pattern")
            if q.next[T] != ("call", "spasm_dfs", c[3]):
                raise Bad(loc(q), "the result of a search is dropped")


# ------------------------------------------------------------------ augmenting paths
def tables(op, L, out=None):
    """allocated or argument arrays written in the loop"""
    return {a for a in op.touched(L) if a[0] in ("call", "arg")}


def initial(op, p, before, W, n, v, what):
    """W[0..n) holds the constant v when event `before` starts"""
    ev = p.events[:p.events.index(before)]
    hit = [e for e in ev if (isinstance(e, Store) and e.base == W) or
           (not isinstance(e, Store) and e[0] == "loop" and W in op.reach(e[1])) or
           (not isinstance(e, Store) and e[0] == "call" and e[1].startswith(("llvm.mem", "mem")) and el_split(e[2][0])[0] == W)]
    if not hit and v == 0 and W[0] == "call" and W[1] in ("spasm_calloc", "calloc"):
        return
    if len(hit) != 1 or not set_all(op, hit[0], W, n, v):
        raise Bad(loc(hit[0][1]) if hit and not isinstance(hit[0], Store) and hit[0][0] == "loop" else op.name,
                  "%s is not set to %d everywhere beforehand" % (what, v))


def set_all(op, e, W, n, v):
    """event e sets W[0..n) to v (and possibly other arrays to something)"""
    if isinstance(e, Store) or e[0] == "call":
        return op.filled(e, W, n, v)
    r = op.T.counter(e[1], e[2], C(0), n)
    bs = op.T.bodies(e[1])
    return r is not None and bool(bs) and all(
        not q.loops() and [(s.addr, s.val) for s in q.stores() if s.base == W] == [(el(W, r), C(v))] for q in bs)


def matching(op, m):
    A, P, Q = arg(0), arg(1), arg(2)
    n, mm = fld(A, 1), fld(A, 2)
    for p in op.paths():
        ls = [e for e in p.loops() if Q in op.reach(e[1]) and P in op.reach(e[1])]
        main = [e for e in ls if any(q.loops() for q in op.T.bodies(e[1]))]
        if not main and (op.empty(p, C(0), n)):
            continue
        if len(main) != 1:
            raise Bad(op.name, "not exactly one loop over the rows")
        e = main[0]
        initial(op, p, e, P, n, -1, "the table of matched rows")
        initial(op, p, e, Q, mm, -1, "the table of matched columns")
        r = [r for r in nest.loop_ranges(op.S, e[1]) if e[2].get(r.phi) == C(0) and r.step == 1
             and r.term == ("phi", r.phi) and op.T.norm(r.hi) == n]
        if not r:
            raise Bad(loc(e[1]), "the rows are not tried one after the other")
        I = ("phi", r[0].phi)
        full = add(I, n, -1)
        K = p.ret[1] if p.ret is not None and p.ret[0] == "phi" and p.ret[1] in e[1].header.phis else None
        if K is None or e[2].get(K) != C(0):
            raise Bad(op.name, "the number of pairs found is not what is returned")
        small = (sym.minmax("min", n, mm), n, mm)
        for x in op.T.left(e[1], e[3]):
            if implied(nonneg(full), x.facts):
                continue
            if not any(implied(nonneg(add(("phi", K), s, -1)), x.facts) for s in small):
                raise Bad(loc(e[1]), "the search may stop before the last row although more pairs are possible")
        for q in op.T.bodies(e[1]):
            inner = [f for f in q.loops() if P in op.reach(f[1]) or Q in op.reach(f[1])]
            step = add(q.next[K], ("phi", K), -1)
            if not inner:
                if step != C(0) or [s for s in q.stores() if s.base in (P, Q)]:
                    raise Bad(loc(q), "a pair is counted or recorded without a search")
                if not implied(nonneg(at(P, I)), q.facts):
                    raise Bad(loc(q), "an unmatched row is skipped")
                continue
            if len(inner) != 1:
                raise Bad(loc(q), "not exactly one search starts from each row")
            augment(op, p, q, e, inner[0], A, I, P, Q, n, mm, step)


def augment(op, p, q, main, f, A, I, P, Q, n, mm, step):
    L, init = f[1:3]
    # the stack of rows starts with row I
    st = [s for s in q.stores() if s.val == I and el_split(s.addr)[1] == C(0) and q.events.index(s) < q.events.index(f)]
    if len(st) != 1 or len([s for s in q.stores() if q.events.index(s) < q.events.index(f)]) != 1:
        raise Bad(loc(L), "the stack does not start with the row alone")
    istack = st[0].base
    wins = {}
    for ed in op.T.exits(L):
        for s in op.T.left(L, ed):
            if any(Q in op.reach(g[1]) for g in s.loops()) or any(x.base in (P, Q) for x in s.stores()):
                wins[ed] = True
    h = None
    for ph in L.header.phis:
        if init.get(ph) is not None and init[ph][0] == "c" and init[ph][1] in (0, 1):
            d = init[ph][1]
            if all(implied(("lt0", add(("phi", ph), C(-d))), s.facts) for ed in op.T.exits(L) if ed not in wins
                   for s in op.T.left(L, ed)):
                h = ph, d
    if h is None:
        raise Bad(loc(L), "a search does not go on until the stack is empty")
    H, d = h
    top = add(("phi", H), C(-d))
    i = at(istack, top)
    row = i
    if step != C(int(f[3] in wins)):
        raise Bad(loc(L), "a search counts for %s although it %s" % (show(step), "succeeded" if f[3] in wins else "failed"))
    tabs = {}

    def visit(s, win):
        scans = [(g, is_scan(op, g, A, row)) for g in s.loops()]
        aug = [g for g, x in scans if x is None]
        scs = [x for g, x in scans if x is not None]
        for x in scs:
            if not x.feasible(s):
                return
        look = [x for x in scs if any(op_mentions(x, Q) == "free" for _ in (0,))]
        deep = [x for x in scs if x not in look]
        # the visited test
        ms = [x for x in s.stores() if x.val == I and x.base not in (istack,)]
        if look:
            if len(look) != 1 or len(ms) != 1 or ms[0].addr != el(ms[0].base, row):
                raise Bad(loc(s), "a row is scanned for a free column without being marked as visited")
            marks = tabs.setdefault("marks", ms[0].base)
            if marks != ms[0].base or not implied(("ne0", add(at(marks, row), I, -1)), s.facts) and \
                    not implied(("ne0", add(I, at(marks, row), -1)), s.facts):
                raise Bad(loc(s), "a row may be scanned twice by the same search")
            k = look[0]
            if k.start[0] not in ("ld", "ldv") or el_split(k.start[1])[1] != row:
                raise Bad(loc(k.L), "the scan for a free column does not resume where that row was left")
            pl = tabs.setdefault("look", el_split(k.start[1])[0])
            if pl != el_split(k.start[1])[0]:
                raise Bad(loc(k.L), "two tables of look-ahead positions")
            for x in op.T.bodies(k.L):
                if x.stores() or x.loops() or not implied(nonneg(at(Q, k.col)), x.facts):
                    raise Bad(loc(x), "a column is passed over although it may be free")
            if not k.done and not all(implied(("lt0", at(Q, k.col)), x.facts) for x in k.ends):
                raise Bad(loc(k.L), "a column is taken although it may be matched")
            for x in s.stores():
                if x.base == pl and (x.addr != el(pl, row) or not (
                        x.val in (k.rel, add(k.rel, C(1))) and not k.done or
                        k.done and x.val in (k.width, k.rel))):
                    raise Bad(loc(x), "the look-ahead position of the row becomes %s, past columns not examined" % show(x.val))
            if win != (not k.done):
                raise Bad(loc(s), "a search %s although %s free column was found" % (
                    "succeeds" if win else "goes on", "no" if k.done else "a"))
        elif ms:
            raise Bad(loc(ms[0]), "a row is marked as visited without looking for a free column")
        elif win:
            raise Bad(loc(s), "a search succeeds without finding a free column")
        if win:
            if len(aug) != 1 or deep:
                raise Bad(loc(s), "the path found is not applied by one loop")
            js = [x for x in s.stores() if x.addr[0] == "el" and el_split(x.addr)[1] == top or x.addr == el(x.base, top)]
            js = [x for x in js if x.val == look[0].col]
            if len(js) != 1:
                raise Bad(loc(s), "the free column is not put on the path")
            jstack = tabs.setdefault("jstack", js[0].base)
            if jstack != js[0].base:
                raise Bad(loc(js[0]), "two stacks of columns")
            g = aug[0]
            lv = op.T.counter(g[1], g[2], C(0), add(top, C(1)))
            if lv is None:
                raise Bad(loc(g[1]), "not every level of the path is applied")
            for x in op.T.bodies(g[1]):
                want = {el(P, at(istack, lv)): at(jstack, lv), el(Q, at(jstack, lv)): at(istack, lv)}
                got = {y.addr: y.val for y in x.stores()}
                if got != want:
                    y = (x.stores() or [None])[0]
                    raise Bad(loc(y) if y else loc(x), "a level of the path does not match its row and its column with each other")
            if [x for x in s.stores() if x.base in (P, Q)]:
                raise Bad(loc(s), "unexpected change of the matching")
            return
        if aug:
            raise Bad(loc(aug[0][1]), "unexpected loop")
        if [x for x in s.stores() if x.base in (P, Q)]:
            raise Bad(loc(s), "the matching is changed by a search that has not succeeded")
        if s.end is not L.header:
            return
        nh = add(s.next[H], ("phi", H), -1)
        if len(deep) != 1:
            raise Bad(loc(s), "the columns of the row are not followed by one loop")
        k = deep[0]
        pre = [x for x in s.stores() if s.events.index(x) < s.events.index(k.e) and x.val == C(0)
               and x.addr == el(x.base, top)]
        if look:
            if len(pre) != 1 or k.start != C(0):
                raise Bad(loc(k.L), "a new row is not followed from its beginning")
            ps = tabs.setdefault("pstack", pre[0].base)
        else:
            if k.start[0] not in ("ld", "ldv") or el_split(k.start[1])[1] != top:
                raise Bad(loc(k.L), "the row is not resumed where it was left")
            ps = tabs.setdefault("pstack", el_split(k.start[1])[0])
            if ps != el_split(k.start[1])[0] or pre:
                raise Bad(loc(k.L), "the row is not resumed where it was left")
            if "marks" in tabs and not any(implied(("eq0", z), s.facts) for z in (
                    add(at(tabs["marks"], row), I, -1), add(I, at(tabs["marks"], row), -1))):
                raise Bad(loc(s), "a row not yet visited is followed without looking for a free column")
        new = at(Q, k.col)
        seen = lambda fs: "marks" not in tabs or any(implied(("eq0", z), fs) for z in (
            add(at(tabs["marks"], new), I, -1), add(I, at(tabs["marks"], new), -1)))
        for x in op.T.bodies(k.L):
            if x.stores() or x.loops() or not seen(x.facts):
                raise Bad(loc(x), "a matched column is passed over although its row may not have been visited")
        if k.done:
            if nh != C(-1):
                raise Bad(loc(s), "a finished row is not removed from the stack")
            return
        if nh != C(1):
            raise Bad(loc(s), "the row of the matched column is not pushed on the stack")
        late = {}
        for x in s.stores():
            if s.events.index(x) > s.events.index(k.e):
                late[x.addr] = x
        want = el(istack, add(top, C(1)))
        if want not in late or late[want].val != new:
            raise Bad(loc(s), "what is pushed is not the row matched to the column")
        sv = late.get(el(ps, top))
        if sv is None or not resume_ok(sv.val, k):
            raise Bad(loc(sv) if sv else loc(s), "the row would be resumed past an entry not examined")
        cs = [x for x in late.values() if x.addr == el(x.base, top) and x.base != ps]
        if len(cs) != 1 or cs[0].val != k.col:
            raise Bad(loc(s), "the column followed is not recorded on the path")
        if tabs.setdefault("jstack", cs[0].base) != cs[0].base:
            raise Bad(loc(cs[0]), "two stacks of columns")

    def op_mentions(x, Q):
        """does the scan look for free columns, or follow matched ones"""
        for y in op.T.trips(x.L):
            for fct in y.facts:
                for t in walk(fct):
                    if t[0] in ("ld", "ldv") and t[1][0] == "el" and el_split(t[1])[1] == at(Q, x.col):
                        return "deep"
        return "free"

    ps = op.T.trips(L)
    ps = sorted(ps, key=lambda s: len(s.loops()) < 2)       # roles of the tables are learnt on the full paths
    for s in ps:
        win = s.end is not L.header and any((s.blocks[-1], s.end) == ed for ed in wins)
        if s.end is not L.header and not win:
            continue
        visit(s, win)
    initial(op, p, main, tabs["marks"], n, -1, "the table of visited rows")
    initial(op, p, main, tabs["look"], n, 0, "the table of look-ahead positions")
    if len({istack, *tabs.values(), P, Q}) != len(tabs) + 3:
        raise Bad(loc(L), "two tables of the search share their storage")


# ------------------------------------------------------------------ components
def components(op, m):
    A = arg(0)
    n = fld(A, 1)
    for p in op.paths():
        ds = p.calls("spasm_dm_alloc")
        if len(ds) != 1 or p.ret != ("call", "spasm_dm_alloc", ds[0][3]):
            raise Bad(op.name, "the decomposition is not returned")
        D = p.ret
        if any(a not in (n, fld(A, 2)) for a in ds[0][2]):
            raise Bad(ds[0][3].loc, "the decomposition does not have the size of the matrix")
        P, Q, R, Cc = [fld(D, k, DM) for k in range(4)]
        main = [e for e in p.loops() if any(q.loops() for q in op.T.bodies(e[1]))]
        if not main and op.empty(p, C(0), n):
            continue
        if len(main) != 1:
            raise Bad(op.name, "not exactly one loop over the nodes")
        e = main[0]
        i = op.counter(e[1], e[2], C(0), n, "the nodes")
        tabs = {}
        for q in op.T.bodies(e[1]):
            inner = q.loops()
            if not inner:
                continue
            if len(inner) != 1:
                raise Bad(loc(q), "not exactly one search starts from each node")
            tarjan(op, p, q, e, inner[0], A, n, i, P, R, tabs)
        if not tabs:
            raise Bad(loc(e[1]), "no search starts from the nodes")
        marks = tabs["marks"]
        for q in op.T.bodies(e[1]):
            if not q.loops() and not implied(nonneg(at(marks, i)), q.facts):
                raise Bad(loc(q), "a node is skipped although it may not have been visited")
            if q.loops() and not implied(("lt0", at(marks, i)), q.facts):
                raise Bad(loc(q), "a search may start from a node already visited")
        initial(op, p, e, marks, n, -1, "the table of visited nodes")
        initial(op, p, e, tabs["pstack"], n, 0, "the table of positions")
        if not tabs.get("rooted"):
            initial(op, p, e, tabs["prev"], n, -1, "the table of parents")
        first = [s for s in p.stores() if s.base == R and p.events.index(s) < p.events.index(e)]
        if [(s.addr, s.val) for s in first] != [(el(R, C(0)), C(0))]:
            raise Bad(op.name, "the first component does not start at 0")
        for k in ("index", "nscc", "ptop"):
            for w in ("outer",):
                ph = tabs.get((k, w))
                if ph is None or e[2].get(ph) != C(0):
                    raise Bad(loc(e[1]), "a counter of the search does not start at 0")
        reversal(op, p, e, D, P, Q, R, Cc, n, ("phi", tabs[("nscc", "outer")]))


def tarjan(op, p, q, main, f, A, n, i, P, R, tabs):
    L, init = f[1:3]
    T = op.T
    pre = [s for s in q.stores() if q.events.index(s) < q.events.index(f)]
    st = [s for s in pre if s.val == i]
    J = [ph for ph in L.header.phis if init.get(ph) == i]
    if len(J) != 1:
        raise Bad(loc(L), "the search does not start from the node")
    J = J[0]
    j = ("phi", J)
    # a stack with the node at its bottom
    H = None
    if len(st) == 1 and st[0].idx[0] == "c":
        stack = st[0].base
        for ph in L.header.phis:
            if init.get(ph) is not None and init[ph][0] == "c" and init[ph][1] - st[0].idx[1] in (0, 1) and ph is not J:
                H, d = ph, init[ph][1] - st[0].idx[1]
    if H is None:
        raise Bad(loc(L), "the node is not put on the stack of open nodes")
    top = add(("phi", H), C(-d))
    for ed in T.exits(L):
        for s in T.left(L, ed):
            if not implied(("lt0", j), s.facts):
                raise Bad(loc(L), "a search may stop before it is back above its root")
    outer = {}
    for ph in L.header.phis:
        v = init.get(ph)
        if ph is not J and v is not None and v[0] == "phi" and v[1].block is main[1].header:
            if q.next.get(v[1]) != ("phi", ph):
                raise Bad(loc(L), "a counter is not carried over to the next search")
            outer[ph] = v[1]
    for s in T.bodies(L):
        step(op, s, L, A, n, j, J, H, d, top, stack, P, R, outer, tabs)
    for x in pre:
        if x is st[0]:
            continue
        if x.base == tabs["prev"] and x.addr == el(tabs["prev"], i) and x.val == C(-1):
            tabs["rooted"] = True
            continue
        raise Bad(loc(x), "unexpected write before the search")


def step(op, s, L, A, n, j, J, H, d, top, stack, P, R, outer, tabs):
    T = op.T
    scs = [is_scan(op, g, A, j) for g in s.loops()]
    scan = [x for x in scs if x is not None]
    rest = [g for g, x in zip(s.loops(), scs) if x is None]
    if len(scan) != 1:
        raise Bad(loc(s), "the successors of a node are not examined by one loop")
    k = scan[0]
    if not k.feasible(s):
        return
    # -- numbering
    pre = [x for x in s.stores() if s.events.index(x) < s.events.index(k.e)]
    if pre:
        if len(pre) != 2 or any(x.addr != el(x.base, j) for x in pre) or pre[0].val != pre[1].val or \
                pre[0].val[0] != "phi" or pre[0].val[1] not in outer:
            raise Bad(loc(pre[0]), "a new node does not get its number as mark and as lowest link")
        idx = pre[0].val[1]
        if tabs.setdefault(("index", "outer"), outer[idx]) != outer[idx] or s.next[idx] != add(("phi", idx), C(1)):
            raise Bad(loc(pre[0]), "the next number is not one more")
        mk = [x.base for x in pre if implied(("lt0", at(x.base, j)), s.facts)]
        if len(mk) != 1:
            raise Bad(loc(s), "a node may be numbered twice")
        lw = [x.base for x in pre if x.base != mk[0]][0]
        if tabs.setdefault("marks", mk[0]) != mk[0] or tabs.setdefault("low", lw) != lw:
            raise Bad(loc(s), "two tables of marks")
    marks, low = None, None
    for x in T.bodies(L):
        y = [z for z in x.stores() if z.addr == el(z.base, j)]
        for z in y:
            if implied(("lt0", at(z.base, j)), x.facts):
                marks = z.base
    marks = tabs.setdefault("marks", marks)
    if marks is None:
        raise Bad(loc(L), "nodes are never marked")
    for x in T.bodies(L):
        for z in x.stores():
            if z.addr == el(z.base, j) and implied(("lt0", at(marks, j)), x.facts) and z.base != marks and \
                    z.val[0] == "phi" and tabs.get("low") is None:
                tabs["low"] = z.base
    low = tabs.get("low")
    if low is None:
        raise Bad(loc(L), "nodes never get a lowest link")
    if not pre and not implied(nonneg(at(marks, j)), s.facts):
        raise Bad(loc(s), "a node is processed without having a number")
    # -- successors
    if not (k.start[0] in ("ld", "ldv") and k.start[1] == el(el_split(k.start[1])[0], j)):
        raise Bad(loc(k.L), "the successors of a node are not resumed where they were left")
    pstack = tabs.setdefault("pstack", el_split(k.start[1])[0])
    lj, lc = at(low, j), at(low, k.col)
    for x in T.bodies(k.L):
        if not implied(nonneg(at(marks, k.col)), x.facts):
            raise Bad(loc(x), "a successor is passed over although it may not have been visited")
        minimum(x, low, j, k.col, [z for z in x.stores()])
    if not k.done:
        if not all(implied(("lt0", at(marks, k.col)), x.facts) for x in k.ends):
            raise Bad(loc(k.L), "a successor may be opened although it was visited")
        late = {x.addr: x for x in s.stores() if s.events.index(x) > s.events.index(k.e)}
        if rest or s.next[J] != k.col or add(s.next[H], ("phi", H), -1) != C(1):
            raise Bad(loc(s), "the search does not go on with the successor found")
        v = late.pop(el(pstack, j), None)
        if v is None or not resume_ok(v.val, k):
            raise Bad(loc(v) if v else loc(s), "the node would be resumed past a successor not examined")
        v = late.pop(el(stack, add(top, C(1))), None)
        if v is None or v.val != k.col:
            raise Bad(loc(v) if v else loc(s), "the successor is not put on the stack of open nodes")
        if len(late) != 1:
            raise Bad(loc(s), "the parent of the successor is not recorded")
        (a, v), = late.items()
        if a != el(v.base, k.col) or v.val != j:
            raise Bad(loc(v), "the parent of the successor is not recorded")
        if tabs.setdefault("prev", v.base) != v.base:
            raise Bad(loc(v), "two tables of parents")
        for ph in outer:
            if s.next[ph] != ("phi", ph) and outer[ph] != tabs.get(("index", "outer")):
                raise Bad(loc(s), "a counter moves although no component is complete")
        return
    # -- all successors done
    after = s.events[s.events.index(k.e) + 1:]
    root = None
    for fct in s.facts:
        if fct[0] not in ("eq0", "ne0", "lt0"):
            continue
        dd, c0 = sym.to_poly(fct[1])
        co = {}
        for mono, v in dd.items():
            t = mono[0] if len(mono) == 1 else None
            w = None
            if t is not None and t[0] in ("ld", "ldv") and t[1] == el(low, j):
                w = "low"
            elif t is not None and (t[0] in ("ld", "ldv") and t[1] == el(marks, j) or
                                    t[0] == "phi" and outer.get(t[1], 0) == tabs.get(("index", "outer"))):
                w = "num"
            co[w] = co.get(w, 0) + v
        if co == {"low": 1, "num": -1} or co == {"low": -1, "num": 1}:
            if fct[0] != "lt0" and c0 == 0:
                root = fct[0] == "eq0"
            elif fct[0] == "lt0" and co["low"] == 1 and c0 == 0:
                root = False                            # low < num
            elif fct[0] == "lt0" and co["low"] == -1 and c0 == -1:
                root = True                             # low >= num
    if root is None:
        raise Bad(loc(s), "whether the node is the root of a component is not decided by comparing its lowest link with its number")
    par = s.next[J]
    if par[0] not in ("ld", "ldv") or el_split(par[1])[1] != j:
        raise Bad(loc(s), "the search does not go back to the parent of the node")
    if tabs.setdefault("prev", el_split(par[1])[0]) != el_split(par[1])[0]:
        raise Bad(loc(s), "two tables of parents")
    body = [x for x in after]
    if root:
        body = emission(op, s, L, n, j, H, d, top, stack, P, R, low, outer, tabs, body, rest,
                        s.facts + (nonneg(k.d),))
    else:
        if rest:
            raise Bad(loc(rest[0][1]), "nodes are removed from the stack although the component is not complete")
        if s.next[H] != ("phi", H):
            raise Bad(loc(s), "the stack changes although the component is not complete")
        for ph in outer:
            if s.next[ph] != ("phi", ph) and outer[ph] != tabs.get(("index", "outer")):
                raise Bad(loc(s), "a counter moves although no component is complete")
    st = [x for x in body if isinstance(x, Store)]
    if implied(("lt0", par), s.facts) or any(implied(("lt0", z), s.facts) for z in (("ld", par[1]), ("ldv", par[1], 0))):
        if st:
            raise Bad(loc(st[0]), "unexpected write")
        return
    minimum(s, low, par, j, st, root, n)


def minimum(x, low, a, b, st, closed=False, n=None):
    """the stores set low[a] to the smaller of low[a] and low[b]"""
    la, lb = el(low, a), el(low, b)

    def val(t):
        if t[0] in ("ld", "ldv"):
            if t[1] == la or el_split(t[1])[0] == low and same(el_split(t[1])[1], a):
                return "a"
            if t[1] == lb:
                return "b"
        return "b" if closed and t == n else None

    def same(u, v):
        return u == v or u[0] in ("ld", "ldv") and v[0] in ("ld", "ldv") and u[1] == v[1]
    if len(st) > 1 or any(not (el_split(s.addr)[0] == low and same(el_split(s.addr)[1], a)) for s in st):
        raise Bad(loc(st[-1]), "unexpected write")
    order = None                    # which one is known to be the smaller (or equal)
    for f in x.facts:
        if f[0] != "lt0":
            continue
        c, ts = sym.to_poly(f[1])[1], sym.to_poly(f[1])[0]
        items = list(ts.items()) if isinstance(ts, dict) else list(ts)
        d = {}
        for mono, co in items:
            t = mono[0] if isinstance(mono, tuple) and len(mono) == 1 and isinstance(mono[0], tuple) else mono
            k = val(t) if isinstance(t, tuple) else None
            if k is None:
                break
            d[k] = d.get(k, 0) + co
        else:
            if d.get("a") == -d.get("b", 0) and abs(d.get("a", 0)) == 1 and c in (0, -1):
                order = "b" if d["b"] == 1 else "a"
    w = val(st[0].val) if st else "a"
    if st and st[0].val[0] in ("min", "sel") and {val(t) for t in st[0].val[1:] if val(t)} == {"a", "b"} and st[0].val[0] == "min":
        return
    if w is None:
        raise Bad(loc(st[0]), "a lowest link becomes %s, not the smaller of the two links" % show(st[0].val))
    if closed and not st:
        return
    if order is None or w != order:
        raise Bad(loc(st[0]) if st else loc(x), "a lowest link does not become the smaller of the two links")


def emission(op, s, L, n, j, H, d, top, stack, P, R, low, outer, tabs, body, rest, known):
    T = op.T
    if len(rest) != 1:
        raise Bad(loc(s), "the nodes of a complete component are not taken off the stack by one loop")
    g = rest[0]
    K = g[1]
    hs = [ph for ph in K.header.phis if g[2].get(ph) == ("phi", H)]
    ps = [ph for ph in K.header.phis if g[2].get(ph) is not None and g[2][ph][0] == "phi" and g[2][ph][1] in outer]
    if len(hs) != 1 or len(ps) != 1:
        raise Bad(loc(K), "the stack or the list of finished nodes is not carried on")
    h2, p2 = hs[0], ps[0]
    ptop = g[2][p2][1]
    if tabs.setdefault(("ptop", "outer"), outer[ptop]) != outer[ptop]:
        raise Bad(loc(K), "two counters of finished nodes")
    x2 = at(stack, add(("phi", h2), C(-d)))
    is_j = [("eq0", add(x2, j, -1)), ("eq0", add(j, x2, -1))]
    for x in T.trips(K):
        st = {z.addr: z.val for z in x.stores()}
        if x.loops():
            raise Bad(loc(x), "unexpected loop")
        pushed = {el(P, ("phi", p2)): x2, el(low, x2): n}
        fs = [resolved(c, known) for c in x.facts]
        atj = any(implied(c, fs) for c in is_j)
        notj = any(implied(neg_cond(c), fs) for c in is_j)
        if x.end is K.header:
            if st != pushed or x.next[h2] != add(("phi", h2), C(-1)) or x.next[p2] != add(("phi", p2), C(1)):
                raise Bad(loc(x), "a node taken off the stack is not recorded and closed exactly once")
            if not notj:
                raise Bad(loc(x), "the component does not end with its root")
        elif not atj:
            raise Bad(loc(K), "the component may end before its root")
    k0 = body.index(g)
    st = {}
    for z in body[k0 + 1:]:
        if isinstance(z, Store):
            st[z.addr] = z
    if [z for z in body[:k0] if isinstance(z, Store)]:
        raise Bad(loc(s), "unexpected write before the component is taken off the stack")
    inside = any(z.addr == el(P, ("phi", p2)) for x in T.trips(K) if x.end is not K.header for z in x.stores())
    v = st.pop(el(P, ("phi", p2)), None)
    jj = (j, x2)
    if v is None and not inside or v is not None and v.val not in jj:
        raise Bad(loc(v) if v else loc(s), "the root is not recorded as the last node of the component")
    v = None
    for a in (el(low, j), el(low, x2)):
        v = st.pop(a, None) or v
    if v is None and not inside or v is not None and v.val != n:
        # the link of the parent may be updated afterwards
        raise Bad(loc(v) if v else loc(s), "the root of a complete component stays open")
    if add(s.next[H], ("phi", h2), -1) != C(-1):
        raise Bad(loc(s), "the root is not taken off the stack")
    if s.next[ptop] != add(("phi", p2), C(1)):
        raise Bad(loc(s), "the number of finished nodes does not advance by one per node")
    ns = [ph for ph in outer if ph is not ptop and s.next[ph] == add(("phi", ph), C(1))
          and outer[ph] != tabs.get(("index", "outer"))]
    if len(ns) != 1 or tabs.setdefault(("nscc", "outer"), outer[ns[0]]) != outer[ns[0]]:
        raise Bad(loc(s), "the number of components does not advance by one")
    v = st.pop(el(R, add(("phi", ns[0]), C(1))), None)
    if v is None or v.val != add(("phi", p2), C(1)):
        raise Bad(loc(v) if v else loc(s), "the end of the component is not recorded")
    return [z for z in body[k0 + 1:] if isinstance(z, Store) and z.addr in st]


def mirrored(op, e, W, src, lo, hi, f):
    """event e: W[t] = f(t) for lo <= t < hi"""
    r = op.T.counter(e[1], e[2], lo, hi)
    return r is not None and bool(op.T.bodies(e[1])) and any(all(
        not q.loops() and [(s.addr, s.val) for s in q.stores()] == [(el(W, t), f(t))] for q in op.T.bodies(e[1]))
        for t in (r, add(add(lo, add(hi, C(-1))), r, -1)))


def reversal(op, p, main, D, P, Q, R, Cc, n, N):
    ev = p.events[p.events.index(main) + 1:]
    rel = [e for e in ev if (isinstance(e, Store) and e.base in (P, Q, R, Cc)) or
           (not isinstance(e, Store) and (e[0] == "loop" and op.reach(e[1]) & {P, Q, R, Cc} or
                                          e[0] == "call" and e[1].startswith(("llvm.mem", "mem"))))]
    state = {P: "fwd", R: "fwd"}
    for e in rel:
        if isinstance(e, Store):
            raise Bad(loc(e), "unexpected write")
        if e[0] == "loop":
            ws = op.reach(e[1]) & {P, Q, R, Cc}
        else:
            ws = {el_split(e[2][0])[0]}
        for W in ws:
            pair = (P, Q) if W in (P, Q) else (R, Cc)
            end = n if W in (P, Q) else add(N, C(1))
            other = pair[1] if W == pair[0] else pair[0]
            if e[0] == "call":
                if state.get(other) and op.copied(e, W, other, end):
                    state[W] = state[other]
                    continue
                raise Bad(e[3].loc, "unexpected copy")
            flip = (lambda t: at(other, add(add(n, C(-1)), t, -1))) if W in (P, Q) else \
                (lambda t: add(n, at(other, add(N, t, -1)), -1))
            if all(len(q.stores()) == 1 for q in op.T.bodies(e[1])):
                if state.get(other) and mirrored(op, e, W, other, C(0), end, flip):
                    state[W] = {"fwd": "rev", "rev": "fwd"}[state[other]]
                    continue
                if state.get(other) and mirrored(op, e, W, other, C(0), end, lambda t: at(other, t)):
                    state[W] = state[other]
                    continue
            raise Bad(loc(e[1]), "the order or the limits of the components are not reversed by definition")
    if any(state.get(W) != "rev" for W in (P, Q, R, Cc)):
        bad = [nm for nm, W in (("row order", P), ("column order", Q), ("row limits", R), ("column limits", Cc)) if state.get(W) != "rev"]
        raise Bad(op.name, "the %s of the components is not the reverse of the order in which they are completed" % bad[0])
    nb = [s for s in p.stores() if s.addr == ("fld", D, DM, 4)]
    if not nb or nb[-1].val != N:
        raise Bad(op.name, "the number of components is not recorded")


def check(b, rep):
    rep.expl = ("Each search is read off the IR as a transition system (one loop trip = one transition, by path-wise symbolic "
                "execution, helpers inlined) and every transition is matched with those of a depth-first search: push, "
                "skip, finish, with what each must read and record.")
    for r, t in (("pattern", "reach: one search per unseen column of the row; columns finished only when all columns of their pivot's row were seen"),
                 ("matching", "augmenting path: free columns looked for first, matched columns followed, the whole path re-matched"),
                 ("components", "Tarjan: numbers, lowest links, components closed at their root; orders and limits reversed at the end")):
        rep.rule(r, t)
    M = b.lib(omp=False)
    ck = Check28(rep, M)
    ck.run("pattern", "spasm_dfs", modes(), dfs)
    ck.run("pattern", "spasm_reach", modes(), reach)
    ck.run("matching", "spasm_maximum_matching", modes(), matching)
    ck.run("components", "spasm_strongly_connected_components", modes(), components)
    rep.assumptions.append("distinct array arguments of one call do not overlap; read-only inputs are not changed (P01)")


if __name__ == "__main__":
    sys.exit(run("P31", check))
