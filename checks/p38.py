"""P38: structural pivots are recorded consistently, cannot close a cycle, and come out in triangular order."""
from common import *
import cfg
import nest
import pts
import sym
from sym import C, add, el, el_split, neg_cond, show, subst, to_poly, walk
from nest import Store
from p27 import Bad, arg, at, fld, implied, loc, nonneg
from trips import contradicts

NAME = "spasm_pivots_extract_structural"
A = arg(0)
AN, AM, AP, AJ = (fld(A, k) for k in (1, 2, 3, 4))


def minus1(t):
    return ("eq0", add(t, C(1)))


def plain(t):
    return subst(t, lambda x: ("ld", plain(x[1])) if x[0] == "ldv" else None)


class Search:
    def __init__(self, rep, M, u, fn):
        self.rep, self.M, self.u, self.fn = rep, M, u, fn
        self.S = sym.Sym(u, M)
        self.T = nest.Tree(u, fn, self.S, lambda c: None, lambda t: None)
        self.T.limit = 20000
        self.loops = sorted(cfg.loops(fn), key=lambda L: (L.header.rpo, L.header.name))
        self.trips = {L: self.T.trips(L) for L in self.loops}
        self.tables()

    # ------------------------------------------------------------------
    def filled(self, L):
        """(table, value, count) of a loop that gives every entry of a table the same value"""
        out = []
        bs = [q for q in self.trips[L] if q.end is L.header]
        if len(bs) == 1:
            for s in bs[0].stores():
                base, idx = el_split(s.addr)
                if idx[0] == "phi" and not to_poly(s.val)[0]:
                    out.append((base, to_poly(s.val)[1], L))
        return out

    def size(self, t):
        for i in self.fn.calls("spasm_malloc", "malloc"):
            if self.S.t(i) == t:
                return self.S.t(i.ops[0])
        return None

    def tables(self):
        self.fills = [f for L in self.loops for f in self.filled(L)]
        for i in self.fn.calls():
            n = i.callee_name() or ""
            if n in ("spasm_calloc", "calloc"):
                self.fills.append((self.S.t(i), 0, None))
            elif n == "memset" or n.startswith("llvm.memset"):
                v, size = to_poly(self.S.t(i.ops[1])), self.size(self.S.t(i.ops[0]))
                if not v[0] and v[1] in (0, 255, -1) and size is not None and self.S.t(i.ops[2]) == size:
                    self.fills.append((self.S.t(i.ops[0]), 0 if not v[1] else -1, None))
        tabs = []
        for base, v, L in self.fills:
            if v == -1 and base not in tabs:
                tabs.append(base)
        n4, m4 = sym.mul(C(4), AN), sym.mul(C(4), AM)
        self.P = [t for t in tabs if self.size(t) == n4]
        self.Q = [t for t in tabs if self.size(t) == m4]
        if len(self.P) != 1 or len(self.Q) != 1:
            raise Bad(self.fn.name, "the tables of pivots by row and by column are not two tables of n and m entries filled with -1", "register")
        self.P, self.Q = self.P[0], self.Q[0]

    # ------------------------------------------------------------------
    def status(self, cell, fs):
        """True: holds a pivot; False: free; None: not known; 'no': impossible"""
        free = minus1(cell) in fs or ("lt0", cell) in fs
        taken = neg_cond(minus1(cell)) in fs or nonneg(cell) in fs
        if free and taken:
            return "no"
        return True if taken else False if free else None

    def pivot(self, q, L):
        """(i, j, row taken, column taken) of the pivot recorded on the path; None if there is none"""
        st = [s for s in q.stores() if s.base in (self.P, self.Q)]
        sets = [(s, el_split(plain(s.addr))[1], plain(s.val)) for s in st if plain(s.val) != C(-1)]
        drops = {(s.base, el_split(plain(s.addr))[1]) for s in st if plain(s.val) == C(-1)}
        if not st:
            return None
        if not sets:
            raise Bad(loc(st[0]), "a pivot is withdrawn on a path that records none", "register")
        rows = [(i, j, s) for s, i, j in sets if s.base == self.P]
        cols = [(i, j, s) for s, j, i in sets if s.base == self.Q]
        if len(rows) != 1 or len(cols) != 1 or rows[0][:2] != cols[0][:2]:
            raise Bad(loc(st[0]), "a pivot is not recorded once in each of the two tables, by row and by column", "register")
        i, j, s = rows[0]
        fs = [plain(f) for f in q.facts]
        r, c = self.status(at(self.P, i), fs), self.status(at(self.Q, j), fs)
        if r is None or c is None:
            # known from the loops around
            fs += self.context(q)
            r, c = self.status(at(self.P, i), fs), self.status(at(self.Q, j), fs)
        if c is None and self.explored(L, q):
            c = False                   # only entries on free columns survive the search (P06)
        for cell, st in ((at(self.P, i), r), (at(self.Q, j), c)):
            if st in (True, False):
                e = minus1(cell)
                fs += [neg_cond(e), nonneg(cell)] if st else [e, ("lt0", cell)]
        self.known[id(q)] = fs
        if "no" in (r, c) or any(f[0] == "eq0" and f[1][0] == "c" and f[1][1] for f in fs):
            return "no"
        if r is None or c is None:
            raise Bad(loc(s), "a pivot is recorded without looking whether its %s already has one" % ("row" if r is None else "column"), "register")
        want = set()
        if r:
            want.add((self.Q, at(self.P, i)))
        if c:
            want.add((self.P, at(self.Q, j)))
        if drops != want:
            raise Bad(loc(s), "recording a pivot does not withdraw exactly the previous pivots of its row and of its column from the opposite table", "register")
        return i, j, r, c

    def context(self, q):
        """facts on every way into the loops around"""
        out, inner = [], q.blocks[0]
        for L in sorted((L for L in self.loops if q.blocks[0] in L.blocks and L.header is not q.blocks[0]), key=lambda L: len(L.blocks)):
            ways = [{plain(f) for f in p.facts} for p in self.trips[L] if any(e[1].header is inner for e in p.loops())]
            if ways:
                out += sorted(set.intersection(*ways), key=sym.key)
            inner = L.header
        return out

    # ------------------------------------------------------------------
    def run(self):
        self.known = {}
        self.found = {}             # loop -> [(path, i, j, row taken, column taken)]
        for L in self.loops:
            for q in self.trips[L]:
                if L in [f[2] for f in self.fills if f[0] in (self.P, self.Q)]:
                    continue
                v = self.pivot(q, L)
                if v not in (None, "no"):
                    self.found.setdefault(L, []).append((q,) + v)
        if not self.found:
            raise Bad(self.fn.name, "no pivot is ever recorded", "register")
        for L, ps in self.found.items():
            self.rep.ok("register", loc(L), "%d paths" % len(ps))
        self.top = self.T.top()
        for L in self.found:
            self.candidate(L)
        self.count()
        self.order()

    # ------------------------------------------------------------------
    def candidate(self, L):
        """why the pivots recorded in this loop cannot close a cycle"""
        for q, i, j, r, c in self.found[L]:
            inner = [e for e in q.loops() if j[0] == "phi" and e[1].header is j[1].block]
            if inner and self.leftmost(q, inner[0], i, j):
                continue
            if self.explored(L, q):
                continue
            e = [e for e in q.loops() if any(x[0] == "phi" and x[1].block is e[1].header for x in walk(j))]
            if e and self.obstructed(L, q, e[0], i, j):
                continue
            raise Bad(loc(q), "the entry taken as a pivot is neither the leftmost of its row, nor one on a column closed to no row with a pivot, nor one chosen by a search of alternating paths", "candidate")
        self.rep.ok("candidate", loc(L))

    def row_range(self, e, i, early=False):
        """term of the position in the loop over all entries of row i; None"""
        return self.T.counter(e[1], e[2], at(AP, i), at(AP, add(i, C(1))), early)

    def leftmost(self, q, e, i, j):
        L = e[1]
        init = e[2].get(j[1])
        if init is None:
            return False
        d, k = to_poly(add(init, AM, -1))
        d2, k2 = to_poly(init)
        first = init == at(AJ, at(AP, i))
        if not (not d and k >= 0 or not d2 and k2 >= 2 ** 31 - 1) and not first:
            return False
        X = self.row_range(e, i)
        if X is None and first:
            X = self.T.counter(L, e[2], add(at(AP, i), C(1)), at(AP, add(i, C(1))))
        if X is None:
            raise Bad(loc(L), "the leftmost entry is not looked for over the whole row", "candidate")
        col = at(AJ, X)
        for p in self.trips[L]:
            if p.end is not L.header:
                continue
            nx = p.next.get(j[1])
            if nx == j:
                if not implied(nonneg(add(col, j, -1)), p.facts) and not implied(nonneg(add(add(col, j, -1), C(-1))), p.facts):
                    raise Bad(loc(p), "an entry to the left of the best one so far is passed over", "candidate")
            elif nx == col:
                if not (implied(("lt0", add(col, j, -1)), p.facts) or implied(nonneg(add(j, col, -1)), p.facts)):
                    raise Bad(loc(p), "an entry that is not further left replaces the best one so far", "candidate")
            else:
                raise Bad(loc(p), "the leftmost entry of the row is not kept", "candidate")
        if first:
            d = add(at(AP, i), at(AP, add(i, C(1))), -1)
            if not implied(("ne0", d), q.facts) and not implied(("lt0", d), q.facts):
                raise Bad(loc(q), "a pivot is recorded on a row that may be empty", "candidate")
            return True
        if ("ne0", add(init, j, -1)) not in q.facts and ("ne0", add(j, init, -1)) not in q.facts \
                and not implied(("ne0", add(init, j, -1)), q.facts) and not implied(("lt0", add(j, init, -1)), q.facts):
            raise Bad(loc(q), "a pivot is recorded on a row that may be empty", "candidate")
        return True

    def explored(self, L, q):
        """the greedy search: its test is property P06"""
        big = [K for K in self.loops if L.blocks <= K.blocks]
        for K in big:
            for p in self.trips[K]:
                for s in p.stores():
                    if el_split(plain(s.addr))[1][0] == "phi" and s.base not in (self.P, self.Q) and not s.base[0] == "arg":
                        return True
        return any(s.base not in (self.P, self.Q) and s.base[0] == "call" and el_split(plain(s.addr))[1][0] == "phi"
                   for s in q.stores())

    def obstructed(self, L, q, e, i, j):
        K = e[1]
        X = self.row_range(e, i, True)
        if X is None or j != at(AJ, X):
            raise Bad(loc(K), "candidates are not looked for among the entries of the row", "candidate")
        # the path by which the inner loop was left with this candidate
        outs = [p for p in self.trips[K] if p.end is e[3][1] and p.blocks[-1] is e[3][0]]
        cell = None
        for p in outs:
            fs = [plain(f) for f in p.facts]
            if self.status(at(self.Q, j), fs) is not False:
                raise Bad(loc(p), "a column that already has a pivot may be taken for another row", "candidate")
            tests = [(W, v) for W, v, F in self.fills if W not in (self.P, self.Q) and any(at(W, j) in set(walk(f)) for f in fs)]
            if not tests:
                raise Bad(loc(p), "a candidate is taken on a column that rows with pivots may use", "candidate")
            cell = (tests[0], fs, p)
        if cell is None:
            raise Bad(loc(K), "the candidate is not an entry at which the search of the row stopped", "candidate")
        (W, start), fs, p = cell
        # values that close a column: what is stored afterwards
        closed = self.closing(W, q, i)
        if closed is None:
            # from the candidate on, when all entries before it are closed or pivotal
            closed = self.closing(W, q, i, X)
            for p2 in self.trips[K]:
                if p2.end is not K.header or closed is None:
                    continue
                fs2 = [plain(f) for f in p2.facts]
                if self.status(at(self.Q, j), fs2) is not True \
                        and not any(self.false(subst(f, lambda x: C(start) if x == at(W, j) else None)) for f in fs2):
                    closed = None
        if closed is None:
            raise Bad(loc(q), "the columns of the row of a new pivot are not closed to the rows that follow", "candidate")
        if closed == "more":
            if start != 0 or not any(f in (("eq0", at(W, j)), ("lt0", add(at(W, j), C(-1)))) for f in fs):
                raise Bad(loc(p), "a candidate is taken on a closed column", "candidate")
        elif start == closed or not any(self.false(subst(f, lambda x: C(closed) if x == at(W, j) else None)) for f in fs):
            raise Bad(loc(p), "a candidate is taken on a closed column", "candidate")
        if self.status(at(self.P, i), [plain(f) for f in q.facts]) is not False:
            raise Bad(loc(q), "a row that already has a pivot may get another one", "candidate")
        self.closed_before(L, W, closed)
        return True

    def false(self, f):
        if f == C(0):
            return True
        if f[0] not in ("eq0", "ne0", "lt0"):
            return False
        d, k = to_poly(f[1])
        return not d and not {"eq0": k == 0, "ne0": k != 0, "lt0": k < 0}[f[0]]

    def closing(self, W, q, i, X0=None):
        """value stored at every column of row i in the table, by a loop on the path"""
        for e in q.loops():
            bs = [p for p in self.trips[e[1]] if p.end is e[1].header]
            X = self.row_range(e, i) if X0 is None else self.T.counter(e[1], e[2], X0, at(AP, add(i, C(1))))
            if X is None or not bs:
                continue
            vals = set()
            for p in bs:
                ss = [s for s in p.stores() if plain(s.addr) == el(W, at(AJ, X))]
                v = None
                if len(ss) == len(p.stores()) and ss:
                    v = ss[-1].val
                    if plain(v) == add(at(W, at(AJ, X)), C(1)) and len(ss) == 1 and self.size(W) == sym.mul(C(4), AM):
                        v = "more"              # counts the rows in an integer
                    else:
                        v = to_poly(v)[1] if not to_poly(v)[0] else None
                vals.add(v)
            if len(vals) == 1 and None not in vals:
                return vals.pop()
        return None

    def closed_before(self, L, W, closed):
        """every column of every row that has a pivot is closed before the loop starts"""
        for p in self.top:
            ls = p.loops()
            at_ = [k for k, e in enumerate(ls) if e[1] is L]
            if not at_:
                continue
            seen, since = False, 0
            for k, e in enumerate(ls[:at_[0]]):
                if e[1] in self.found:
                    seen, since = False, k
                    continue
                if any(f[0] == W and f[2] is e[1] for f in self.fills):
                    seen = False
                    continue
                R = self.T.counter(e[1], e[2], C(0), AN)
                if R is None:
                    continue
                ok = True
                for b in self.trips[e[1]]:
                    if b.end is not e[1].header:
                        continue
                    fs = [plain(f) for f in b.facts]
                    if self.status(at(self.P, R), fs) in (False, "no"):
                        continue
                    if self.closing(W, b, R) != closed:
                        ok = False
                if ok and any(self.closing(W, b, R) == closed for b in self.trips[e[1]] if b.end is e[1].header):
                    seen = True
            if not seen:
                raise Bad(loc(L), "pivots are looked for on open columns before the columns of all rows that have a pivot are closed", "candidate")

    # ------------------------------------------------------------------
    def less(self, v, q):
        """value of v at the end of path q, less the number of new pivots recorded on the way"""
        for e in reversed(q.loops()):
            L = e[1]
            if not any(K.blocks <= L.blocks for K in self.found):
                continue
            X = None
            for r in self.trips[L]:
                if r.end is not e[3][1] or self.pivot(r, L) == "no":
                    continue
                last = r.loops()[-1:]
                if r.blocks[-1] is not e[3][0] and not (last and last[0][3][0] is e[3][0]):
                    continue
                x = self.less(subst(v, lambda t: r.t(t[1]) if t[0] == "phi" and t[1].block in L.blocks and t[1].block is not L.header else None), r)
                if X is not None and x != X:
                    raise Bad(loc(r), "the number of pivots does not advance by one exactly when a pivot is new on both its row and its column", "count")
                X = x
            if X is None:
                continue
            heads = {t[1] for t in walk(X) if t[0] == "phi" and t[1].block is L.header}
            for r in self.trips[L]:
                if r.end is not L.header or self.pivot(r, L) == "no":
                    continue
                for h in heads:
                    if self.less(r.next[h], r) != ("phi", h):
                        raise Bad(loc(r), "the number of pivots does not advance by one exactly when a pivot is new on both its row and its column", "count")
                if not heads and self.less(C(0), r) != C(0):
                    raise Bad(loc(r), "a pivot found here is not counted in the number returned", "count")
            v = subst(X, lambda t: e[2].get(t[1]) if t[0] == "phi" and t[1] in heads else None)
        if id(q) in self.new:
            v = self.settle(v, self.known[id(q)])
        return add(v, C(self.new.get(id(q), 0)), -1)

    def settle(self, v, fs):
        """v with the conditions decided by the facts replaced by 0 and 1"""
        def f(x):
            if x[0] not in sym.COND:
                return None
            y = plain(x)
            for c, k in ((y, 1), (neg_cond(y), 0)):
                if c in fs or c[0] == "and" and all(z in fs for z in c[1:]):
                    return C(k)
                if c[0] == "or" and any(z in fs for z in c[1:]):
                    return C(k)
            return None
        return subst(v, f)

    def count(self):
        self.new = {id(x[0]): int(not x[3] and not x[4]) for L in self.found for x in self.found[L]}
        n = 0
        for p in self.top:
            if p.ret is None:
                continue
            n += 1
            if self.less(p.ret, p) != C(0):
                raise Bad(loc(p), "the number returned is not the number of new pivots recorded", "count")
        if n:
            for L in self.found:
                self.rep.ok("count", loc(L))

    # ------------------------------------------------------------------
    def order(self):
        """the permutation: finished columns from the last search result to the end, then the other rows"""
        for p in self.top:
            if p.ret is None:
                continue
            ls = p.loops()
            last = max([k for k, e in enumerate(ls) if any(L.blocks <= e[1].blocks for L in self.found)] + [-1])
            search = [(k, e) for k, e in enumerate(ls) if any(b.calls("spasm_dfs") for b in self.trips[e[1]])]
            if len(search) != 1:
                raise Bad(loc(p), "the pivotal columns are not put in order by one series of searches", "order")
            k, e = search[0]
            if k < last:
                raise Bad(loc(e[1]), "pivots are put in order before all of them are found", "order")
            top, xj = self.series(e)
            outs = [x for x in ls[k + 1:] if any(s.base == arg(3) for b in self.trips[x[1]] for s in b.stores())]
            if len(outs) != 2:
                raise Bad(loc(e[1]), "the permutation is not made of the ordered pivotal rows followed by the others", "order")
            h = self.place(outs[0], None, lambda e: self.T.counter(e[1], e[2], top, AM),
                           lambda X: at(self.Q, at(xj, X)), lambda X: at(self.Q, at(xj, X)), C(0))
            self.place(outs[1], None, lambda e: self.T.counter(e[1], e[2], C(0), AN), lambda X: at(self.P, X), lambda X: X, ("phi", h))
        self.rep.ok("order", self.fn.name)

    def series(self, e):
        L = e[1]
        J = self.T.counter(L, e[2], C(0), AM)
        if J is None:
            raise Bad(loc(L), "searches are not started from every column", "order")
        got = None
        for b in self.trips[L]:
            if b.end is not L.header:
                continue
            fs = [plain(f) for f in b.facts]
            cs = b.calls("spasm_dfs")
            if not cs:
                st = self.status(at(self.Q, J), fs)
                marked = [f for f in fs if f[0] == "ne0" and f[1] in [at(W, J) for W, v, F in self.fills if v == 0]]
                if st is not False and not marked:
                    raise Bad(loc(b), "a pivotal column that no search has reached is left out", "order")
                continue
            a = [plain(x) for x in cs[0][2]]
            t = [ph for ph in L.header.phis if ("phi", ph) == a[2]]
            if len(cs) != 1 or a[0] != J or a[1] != A or a[6] != self.Q or not t:
                raise Bad(cs[0][3].loc, "a search is not started with its column, the matrix and the table of pivots", "order")
            if b.next[t[0]] != self.S.t(cs[0][3]) or plain(e[2].get(t[0])) != AM:
                raise Bad(cs[0][3].loc, "the list of ordered columns is not continued from one search to the next", "order")
            if (a[5], 0) not in [(W, v) for W, v, F in self.fills]:
                raise Bad(cs[0][3].loc, "the searches start with marks that are not all clear", "order")
            if self.status(at(self.Q, J), fs) is not True:
                raise Bad(cs[0][3].loc, "a search starts from a column without pivot", "order")
            if ("eq0", at(a[5], J)) not in fs:
                raise Bad(cs[0][3].loc, "a search starts from a column already reached", "order")
            if got not in (None, (("phi", t[0]), a[3])):
                raise Bad(cs[0][3].loc, "the searches do not share one list", "order")
            got = (("phi", t[0]), a[3])
        if got is None:
            raise Bad(loc(L), "no search is started", "order")
        return got

    def place(self, e, W, rng, test, value, start):
        L = e[1]
        X = rng(e)
        if X is None:
            raise Bad(loc(L), "the rows put into the permutation are not taken over the whole range", "order")
        heads = None
        for b in self.trips[L]:
            if b.end is not L.header:
                continue
            fs = [plain(f) for f in b.facts]
            st = self.status(test(X), fs)
            if st == "no":
                continue
            want = start == C(0) and st is True or start != C(0) and st is False
            ss = [s for s in b.stores() if s.base == arg(3)]
            if st is None and not ss and start == C(0):
                raise Bad(loc(b), "a row is left out of the permutation", "order")
            if st is None:
                if start == C(0):
                    want = True         # every finished column has a pivot or not, the row is stored
                else:
                    raise Bad(loc(b), "a row is put into the permutation whether it has a pivot or not", "order")
            if not want:
                if ss:
                    raise Bad(loc(ss[0]), "a row is put into the wrong part of the permutation", "order")
                if heads is not None and b.next[heads] != ("phi", heads) or heads is None and False:
                    raise Bad(loc(b), "a place of the permutation is left empty", "order")
                continue
            if len(ss) != 1 or plain(ss[0].val) != plain(value(X)):
                raise Bad(loc(b), "a row is not put into the permutation exactly once", "order")
            k = el_split(plain(ss[0].addr))[1]
            if k[0] != "phi" or k[1].block is not L.header or b.next[k[1]] != add(k, C(1)) or heads not in (None, k[1]):
                raise Bad(loc(ss[0]), "rows are not put one after the other into the permutation", "order")
            heads = k[1]
        if heads is None:
            raise Bad(loc(L), "no row is put into the permutation", "order")
        for b in self.trips[L]:
            if b.end is L.header and not [s for s in b.stores() if s.base == arg(3)] and b.next[heads] != ("phi", heads):
                raise Bad(loc(b), "a place of the permutation is left empty", "order")
        if e[2].get(heads) != start:
            raise Bad(loc(L), "this part of the permutation does not start where the previous one ends", "order")
        return heads


def check(b, rep):
    rep.expl = ("Path-wise symbolic summaries of every loop of the structural pivot search (helpers inlined, parallel "
                "regions read sequentially): stores into the two pivot tables, candidate conditions, counters and the "
                "permutation are compared with the rules below.")
    rep.rule("register", "a pivot (i, j) is stored once in each table, and exactly the previous pivots of row i and column j are withdrawn from the opposite table")
    rep.rule("candidate", "a candidate is the leftmost entry of its row, or lies on a column that no row with a pivot uses (closed columns), or passed the alternating-path test (P06)")
    rep.rule("count", "each search counts exactly the pivots new on both row and column, and the sum is returned")
    rep.rule("order", "every pivotal column is searched, in one shared list; the permutation holds the rows of that list in order and then every row without pivot")
    M = b.lib(omp=False)
    for u in pts.units(M, [NAME]):
        try:
            Search(rep, M, u, u.fn).run()
        except Bad as e:
            rep.bad(e.rule or "register", e.where, "%s" % (e.rule or "register"), e.msg)
            return
    rep.need("register", 2)
    rep.need("candidate", 2)
    rep.need("count", 2)
    rep.need("order", 1)
    rep.assumptions.append("the alternating-path test itself is the subject of P06, the search spasm_dfs of P31")


if __name__ == "__main__":
    sys.exit(run("P38", check))
