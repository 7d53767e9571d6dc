"""P16: every row appended to U starts with its unit pivot and is registered."""
from common import *
import pts
import cfg
import trips
from sym import Sym, C, add, mul, el_split, el, walk, show, to_poly, subst, eqn
from ranges import loop_ranges, edge_facts, facts

strip = trips.strip
TABLES = {3: "p", 4: "j", 5: "x"}
FF = {"spasm_ffpack_rref": (6, None), "spasm_ffpack_LU": (7, 6)}      # operands: column table, row table
SOLVE = "spasm_sparse_triangular_solve"


def is_U(t):
    """is t the U of a factorization?  -> the factorization"""
    if t[0] == "ld" and t[1][0] == "fld" and t[1][2:] == ("spasm_lu", 3):
        return t[1][1]
    return None


def target(t):
    """address term -> (object, field, index) of an element of an array held by a structure"""
    b, x = el_split(t)
    if b[0] == "ld" and b[1][0] == "fld":
        return b[1], x
    return None, None


class Emit:
    def __init__(self, rep, S, u, f, L, U, sites, M):
        self.rep, self.S, self.u, self.f, self.L, self.U, self.M = rep, S, u, f, L, U, M
        self.fact = is_U(U)
        self.sites = sites                  # {'p','j','x': [stores]}
        self.qinv = ("fld", self.fact, "spasm_lu", 4)
        self.Lp = ("fld", self.fact, "spasm_lu", 5)
        self.Lt = ("ld", ("fld", self.fact, "spasm_lu", 6))
        self.n = ("fld", U, "spasm_csr", 1)
        self.nst = [i for b in f.blocks for i in b.insts if i.op == "store" and S.t(i.ops[1]) == self.n]
        self.E = [i for i in self.nst if cfg.innermost_loop(i.block) is L]
        self.done = set()
        self.N = None
        self.J = self.coef = None

    def where(self, i):
        return "%s %s" % (i.block.fn.name, i.loc)

    def bad(self, rule, i, key, msg):
        self.rep.bad(rule, self.where(i), key, msg)

    def ok(self, rule, i):
        self.rep.ok(rule, self.where(i))

    # -- row numbers: offset from the number of the row being appended
    def rown(self, v, P, at=None):
        root, k = P.lin(v)
        if root.kind == "inst" and root.op == "load" and self.S.t(root.ops[0]) == self.n:
            if not self.E:
                pass
            elif root.block in P.set:
                order = list(P.insts())
                pos = order.index(root)
                return k + sum(1 for e in self.E if e.block in P.set and order.index(e) < pos)
            else:
                return None
        if self.N is not None and root is self.N:
            return k
        if not self.E and self.R0 is not None:
            d, c = to_poly(add(self.S.t(v), self.R0, -1))
            if not d:
                return c
        return None

    def index(self, st):
        p = st.ops[1]
        while p.kind == "inst" and p.op in ("bitcast", "freeze"):
            p = p.ops[0]
        if p.kind == "inst" and p.op == "gep" and len(p.ops) == 2:
            return p.ops[1]
        return None

    def pos(self, v, P):
        """(root, offset); root 's' = start of the row"""
        root, k = P.lin(v)
        if root.kind == "inst" and root.op == "load":
            o, x = target(self.S.t(root.ops[0]))
            if o == ("fld", self.U, "spasm_csr", 3) and root.block in P.set:
                order = list(P.insts())
                p = order.index(root)
                i = self.index_of(root.ops[0])
                r = self.rown(i, P) if i is not None else None
                if r == 0:
                    return "s", k
                if r == 1:
                    for s in self.sites["p"]:
                        if s.block in P.set and order.index(s) < p:
                            return self.pos(s.ops[0], P)[0], self.pos(s.ops[0], P)[1] + k
        if root is self.start:
            return "s", k
        return root, k

    def index_of(self, p):
        while p.kind == "inst" and p.op in ("bitcast", "freeze"):
            p = p.ops[0]
        if p.kind == "inst" and p.op == "gep" and len(p.ops) == 2:
            return p.ops[1]
        return None

    # -- one emission loop
    def run(self):
        S, L = self.S, self.L
        heads = {l.header for l in cfg.loops(self.f) if l.parent is L}
        ts = trips.trips(S, L, opaque=heads)
        anchor = (self.sites["p"] or self.E)[0]
        for P in ts or []:
            P.entered = {h: P.pred[h] for h in heads if h in P.set}     # values after an inner loop are not those before it
            P.pred.update({h: None for h in P.entered})
        if not ts:
            self.bad("row", anchor, "trips", "the appended row cannot be followed")
            return
        # row number when U->n is only updated after the loop
        self.R0 = None
        rp = [s for s in self.sites["p"] if cfg.innermost_loop(s.block) is L]
        if not rp:
            self.bad("pointer", anchor, "missing", "a row is appended to U but its row pointer is not set")
            return
        if not self.E:
            i = self.index(rp[0])
            t = add(target(S.t(rp[0].ops[1]))[1], C(-1))
            self.R0 = t
            if not self.after(t, rp[0]):
                self.bad("pointer", rp[0], "count", "rows are appended to U but the number of rows of U does not follow")
                return
        # what marks the start of the row: a counter of the loop that continues from one row to the next
        self.start = None
        base = ("ld", el(("ld", ("fld", self.U, "spasm_csr", 3)), ("ld", self.n)))
        cand = []
        for ph in L.header.phis:
            ins = [v for v, b in ph.incoming if b not in L.blocks]
            if ins and all(S.t(v) == base for v in ins):
                cand.append(ph)
        emits = [P for P in ts if any(s.block in P.set for s in rp)]
        if not emits:
            self.bad("row", anchor, "never", "no path through the loop appends a complete row")
            return
        for ph in cand:
            if any(P.lin(self.index(s) if self.index(s) is not None else s.ops[0])[0] is ph
                   for P in emits for s in self.sites["j"] + self.sites["x"] if s.block in P.set):
                self.start = ph
        for P in ts:
            if P in emits:
                continue
            ext = [s for s in self.E + self.sites["j"] + self.sites["x"] + self.regs(P) if s.block in P.set]
            if ext:
                self.bad("row", ext[0], "partial", "on a path through the loop, part of a row is appended to U (or its pivot "
                         "registered) without its row pointer being set")
            if self.start is not None and P.out(self.start) is not None and self.pos(P.out(self.start), P) != ("s", 0):
                self.bad("row", anchor, "skip", "on a path through the loop which appends no row, the position where the next row "
                         "starts changes")
        for P in emits:
            self.emit(P, rp)
        # every loop writing entries of U inside L is one of the loops that were examined
        for s in self.sites["j"] + self.sites["x"]:
            l = cfg.innermost_loop(s.block)
            if l is not L and l not in self.done:
                self.bad("row", s, "stray", "entries are written into U outside the row being appended")

    def after(self, t, rp):
        """U->n is set to the next row number once the loop is over"""
        S, L = self.S, self.L
        want = set()
        for r in loop_ranges(S, L):
            if r.step == 1 and r.full():
                hi = subst(t, lambda a: r.hi if a == r.term else None)
                want.add(hi)
        for ph in L.header.phis:
            if ("phi", ph) == t:
                want.add(t)
        for i in self.nst:
            if S.t(i.ops[0]) in want and any(i.block is e[1] or i.block in cfg.reachable(e[1]) for e in L.exits()):
                return True
        return False

    def regs(self, P=None):
        S = self.S
        return [i for b in (P.blocks if P else self.L.blocks) for i in b.insts if i.op == "store" and
                target(S.t(i.ops[1]))[0] == self.qinv]

    def at(self, sites, P):
        """{position: [stores]} of the path outside the inner loops"""
        out = {}
        for s in sites:
            if s.block not in P.set or cfg.innermost_loop(s.block) is not self.L:
                continue
            i = self.index(s)
            p = self.pos(i, P) if i is not None else (None, 0)
            out.setdefault(p, []).append(s)
        return out

    def emit(self, P, rp):
        S, L, rep = self.S, self.L, self.rep
        # row pointer, row count
        sets = [s for s in rp if s.block in P.set]
        last = sets[-1]
        if len(self.E) and sum(e.block in P.set for e in self.E) != 1:
            self.bad("pointer", last, "count", "on a path appending a row, the number of rows of U does not advance exactly once")
            return
        for e in self.E:
            if e.block in P.set and self.rown(e.ops[0], P) != 1:
                self.bad("pointer", e, "step", "the number of rows of U does not advance by one with the row appended")
                return
        r = self.rown(self.index(last), P) if self.index(last) is not None else None
        if len(sets) != 1 or r != 1:
            self.bad("pointer", last, "where", "the row pointer set is not the one that follows the appended row")
            return
        end = self.pos(last.ops[0], P)
        if self.start is not None and self.pos(P.out(self.start), P) != end:
            self.bad("pointer", last, "end", "the row pointer is not the position where the next row will start")
            return
        js, xs = self.at(self.sites["j"], P), self.at(self.sites["x"], P)
        pj, px = js.get(("s", 0), []), xs.get(("s", 0), [])
        if len(pj) != 1 or len(px) != 1:
            self.bad("pivot", last, "first", "the first entry of the appended row is not written exactly once (column and "
                     "coefficient) on every path")
            return
        one = P.resolve(px[0].ops[0])
        if one.kind != "int" or one.val != 1:
            self.bad("pivot", px[0], "unit", "the coefficient of the first entry of the appended row is not 1")
            return
        self.ok("pivot", px[0])
        J = P.resolve(pj[0].ops[0])
        Jt = S.t(pj[0].ops[0])
        self.Jv = pj[0].ops[0]
        # registration
        reg = self.regs(P)
        reg = [s for s in reg if s.block in P.set and cfg.innermost_loop(s.block) is L]
        if len(reg) != 1:
            self.bad("registered", last, "once", "on a path appending a row, its pivot column is not registered exactly once")
            return
        q = reg[0]
        x = target(S.t(q.ops[1]))[1]
        qi = self.index(q)
        if self.rown(q.ops[0], P) != 0:
            self.bad("registered", q, "row", "the pivot column is not registered as pointing to the row being appended")
            return
        if x != Jt and not (qi is not None and P.resolve(qi) is J):
            self.bad("registered", q, "column", "the column registered is not the column of the first entry of the row")
            return
        self.ok("registered", q)
        # the rest of the row
        used = set(pj) | set(px)
        self.order = list(P.insts())
        self.q = q
        self.P = P
        if not self.cover(end, P, js, xs, used, Jt, last, 0):
            return
        left = [s for t in (js, xs) for v in t.values() for s in v if s not in used]
        if left:
            self.bad("row", left[0], "outside", "an entry is written outside the row being appended")
            return
        self.ok("pointer", last)
        for l in cfg.loops(self.f):
            if l.parent is L and l.header in P.set and l not in self.done and any(
                    s.block in l.blocks for s in self.sites["j"] + self.sites["x"]):
                self.bad("pointer", last, "beyond", "the row pointer is not beyond the entries written by an inner loop")
                return
        self.ok("row", last)
        self.record(P, Jt, last)

    def cover(self, end, P, js, xs, used, J, last, n):
        """all positions from the pivot to `end` are written"""
        S, L = self.S, self.L
        root, k = end
        if n > 6 or root is None:
            return False
        if root == "s":
            if k < 1:
                self.bad("pointer", last, "short", "the row pointer is not beyond the pivot of the row")
                return False
            return all(self.single(("s", p), js, xs, used, J, last) for p in range(1, k))
        if root.kind == "inst" and root.op == "phi" and root.block is not L.header:
            l = next((l for l in cfg.loops(self.f) if l.header is root.block and l.parent is L), None)
            if l is not None and l.header in P.set:
                if not all(self.single((root, p), js, xs, used, J, last) for p in range(0, k)):
                    return False
                if k < 0:
                    self.bad("pointer", last, "short", "the row pointer is not beyond the entries of the row")
                    return False
                if not self.inner(l, root, J, last):
                    return False
                ins = [v for v, b in root.incoming if b not in l.blocks]
                pr = self.pos(root_in(P, root, l, ins), P) if ins else (None, 0)
                return self.cover(pr, P, js, xs, used, J, last, n + 1)
        # positions computed from the counter of the loop
        d = self.block(root, k, P, J, last)
        if d is not None:
            return d
        self.bad("pointer", last, "unknown", "the row pointer is not the end of the entries written into the row")
        return False

    def single(self, p, js, xs, used, J, last):
        a, b = js.get(p, []), xs.get(p, [])
        if len(a) != 1 or len(b) != 1:
            self.bad("row", last, "hole", "a position of the appended row is not written exactly once (column and coefficient)")
            return False
        used |= set(a) | set(b)
        self.bad("row", a[0], "extra", "an entry of unknown origin is appended next to the pivot")
        return False

    def block(self, root, k, P, J, last):
        """entries written at start + 1 + (counter - first)"""
        S, L = self.S, self.L
        if self.start is None:
            return None
        s0 = ("phi", self.start)
        endt = add(S.t(root), C(k))
        for l in cfg.loops(self.f):
            if l.parent is not L or l.header not in P.set:
                continue
            sj = [s for s in self.sites["j"] if s.block in l.blocks]
            sx = [s for s in self.sites["x"] if s.block in l.blocks]
            if len(sj) != 1 or len(sx) != 1:
                continue
            for r in loop_ranges(S, l):
                if r.step != 1 or not r.full():
                    continue
                want = add(add(s0, C(1)), add(r.term, r.lo, -1))
                if target(S.t(sj[0].ops[1]))[1] != want or target(S.t(sx[0].ops[1]))[1] != want:
                    continue
                if endt != add(add(s0, C(1)), add(r.hi, r.lo, -1)):
                    continue
                ts = trips.trips(S, l)
                if not ts or not all(sj[0].block in Q.set and sx[0].block in Q.set for Q in ts):
                    continue
                self.done.add(l)
                return all(self.entry(l, Q, sj[0], sx[0], J, r) for Q in ts)
        return None

    # -- the loop appending the other entries
    def inner(self, l, ph, J, last):
        S = self.S
        first = l not in self.done
        self.done.add(l)
        ts = trips.trips(S, l)
        if not ts:
            self.bad("row", last, "inner", "the entries appended to the row cannot be followed")
            return False
        app, skip = [], []
        for Q in ts:
            v = Q.out(ph)
            d = Q.delta(v, ph) if v is not None else None
            sj = [s for s in self.sites["j"] if s.block in Q.set]
            sx = [s for s in self.sites["x"] if s.block in Q.set]
            pj = sorted(Q.delta(self.index(s), ph) if self.index(s) is not None and
                        Q.delta(self.index(s), ph) is not None else -1 for s in sj)
            px = sorted(Q.delta(self.index(s), ph) if self.index(s) is not None and
                        Q.delta(self.index(s), ph) is not None else -1 for s in sx)
            if d is None or d < 0 or pj != list(range(d)) or px != list(range(d)):
                i = (sj + sx + [last])[0]
                if d == 0 and pj in ([0], []) and px in ([0], []):
                    skip.append(Q)          # written ahead but not kept
                    continue
                self.bad("row", i, "step", "the entries written on a trip do not match the advance of the position (each position "
                         "must get one column and one coefficient)")
                return False
            if d == 0:
                skip.append(Q)
            elif d == 1:
                app.append((Q, sj[0], sx[0]))
            else:
                self.bad("row", sj[0], "several", "several entries are appended on one trip")
                return False
        if not app:
            self.bad("row", last, "none", "the loop appends no entry")
            return False
        rs = [r for r in loop_ranges(S, l) if abs(r.step) == 1]
        rs = [r for r in rs if r.term != ("phi", ph)]
        rng = next((r for r in rs if r.full()), None)
        if rng is None:
            self.bad("complete", app[0][1], "stops", "the loop appending the entries of the row does not run through all of them")
            return False
        for Q, a, b in app:
            if not self.entry(l, Q, a, b, J, rng):
                return False
        for Q in skip:
            if not self.skipped(Q, app, J):
                self.bad("complete", app[0][1], "skip", "an entry is left out of the row although it is neither zero, nor the pivot, "
                         "nor on a column that has a pivot")
                return False
        self.ok("complete", app[0][1])
        return True

    def vals(self, Q, a, b):
        return self.S.t(Q.resolve(a.ops[0])), Q.resolve(b.ops[0])

    def leaves(self, v, Q):
        """calls producing a coefficient"""
        out, todo, seen = [], [v], set()
        while todo:
            x = strip(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.kind == "inst" and x.op == "select":
                todo += list(x.ops[1:])
            elif x.kind == "inst" and x.op == "phi":
                todo += [y for y, b in x.incoming]
            else:
                out.append(x)
        return out

    def entry(self, l, Q, a, b, J, rng):
        """the column and the coefficient of an entry belong together, and the coefficient is scaled by the inverse of the pivot"""
        S = self.S
        j, x = self.vals(Q, a, b)
        if x.kind != "inst" or x.op != "call":
            self.bad("unit", b, "scale", "a coefficient is put into the row without being multiplied by the inverse of the pivot")
            return False
        n = x.callee_name()
        if n == "spasm_datatype_read":
            return self.dense(l, a, b, j, x, J, rng)
        if n == "spasm_ZZp_mul":
            f = [x.ops[1], x.ops[2]]
        elif n == "spasm_ZZp_axpy" and x.ops[3].kind == "int" and x.ops[3].val == 0:
            f = [x.ops[1], x.ops[2]]
        else:
            self.bad("unit", b, "scale", "a coefficient is put into the row without being multiplied by the inverse of the pivot")
            return False
        inv = co = None
        for y, z in (f, f[::-1]):
            i = self.inverse(y, Q)
            if i is not None:
                inv, co = i, z
        if inv is None:
            self.bad("unit", b, "inverse", "a coefficient is multiplied by something else than the inverse of a coefficient")
            return False
        ct = S.t(Q.resolve(co))
        self.coef = ct
        cb, cx = el_split(ct[1]) if ct[0] == "ld" else (None, None)
        if cb is None:
            self.bad("unit", b, "coef", "the origin of a coefficient of the row is not recognised")
            return False
        jb, jx = el_split(j[1]) if j[0] == "ld" else (None, None)
        cond = [c for c in self.known(l, Q)]
        if cx == j:                                             # x[j]: scratch vector indexed by columns
            kind = "solve"
            src = self.solve(cb, jb)
            if src is None:
                self.bad("unit", b, "source", "the coefficients of the row do not come from the last triangular solve")
                return False
            if not any(trips.contradicts(c, g) for c in cond for g in self.pivotal(j)):
                self.bad("unit", b, "pivotal", "an entry on a column that already has a pivot is put into the row")
                return False
            if not self.before(self.q, l) and not self.notj(cond, j, J):
                self.bad("pivot", a, "twice", "the pivot may be put into the row a second time")
                return False
            if rng.lo != S.t(src) or rng.hi != S.t(src.ops[3]) and not self.cols(rng.hi) or jx != rng.term:
                self.bad("complete", a, "range", "the loop does not run through all the entries produced by the triangular solve")
                return False
            if not self.pivot_value(inv, J, lambda t: t == ("ld", el(cb, J)), b):
                return False
            if not self.chosen(J, cb, b):
                return False
        elif jb is not None and jx == cx and self.parts(cb, jb):
            A = self.parts(cb, jb)
            lo, hi = rng.lo, rng.hi
            o1, i1 = target(lo[1]) if lo[0] == "ld" else (None, None)
            o2, i2 = target(hi[1]) if hi[0] == "ld" else (None, None)
            if o1 != ("fld", A, "spasm_csr", 3) or o2 != o1 or i2 != add(i1, C(1)) or jx != rng.term:
                self.bad("complete", a, "range", "the loop does not run through all the entries of the row the pivot was found in")
                return False
            self.row = i1
            if not self.notj(cond, j, J):
                self.bad("pivot", a, "twice", "the pivot may be put into the row a second time")
                return False
            if not self.pivot_value(inv, J, lambda t: self.in_row(t, A, i1), b, A):
                return False
        else:
            self.bad("unit", b, "apart", "the column and the coefficient of an entry do not belong to the same entry")
            return False
        self.piv = S.t(inv)
        self.ok("unit", b)
        return True

    def known(self, l, Q):
        """conditions known on the trip, those of the way into the loop included"""
        return list(Q.facts) + list(self.P.facts)

    def before(self, i, l):
        return cfg.dominates(i.block, l.header) and i.block is not l.header

    def pivotal(self, j):
        q = ("ld", el(("ld", self.qinv), j))
        return [("eq0", add(q, C(-k))) for k in (0, 5)]

    def notj(self, cond, j, J):
        e = add(j, J, -1)
        eqs = [("eq0", e), ("eq0", add(C(0), e, -1))]
        return any(trips.contradicts(c, g) for c in cond for g in eqs)

    def isj(self, cond, j, J):
        e = add(j, J, -1)
        nes = [("ne0", e), ("ne0", add(C(0), e, -1))]
        return any(trips.contradicts(c, g) for c in cond for g in nes)

    def inverse(self, v, Q):
        v = Q.resolve(v)
        if v.kind == "inst" and v.op == "phi" and v.block not in Q.pred and v.block in self.P.pred:
            v = self.P.resolve(v)
        if v.kind == "inst" and v.op == "call" and v.callee_name() == "spasm_ZZp_inverse":
            if self.L is None or v.block in self.L.blocks:
                return v.ops[1]
        return None

    def cols(self, t):
        """is t the number of columns of U or of the matrix processed?"""
        return t[0] == "ld" and t[1][0] == "fld" and t[1][2:] == ("spasm_csr", 2)

    def solve(self, xb, jb):
        """the triangular solve of this trip producing vector xb with pattern jb"""
        S = self.S
        cs = [i for b in self.P.blocks for i in b.insts if i.op == "call" and i.callee_name() == SOLVE]
        if len(cs) != 1:
            return None
        c = cs[0]
        if S.t(c.ops[4]) != xb or S.t(c.ops[3]) != jb:
            return None
        self.row = S.t(c.ops[2])
        return c

    def chosen(self, J, cb, b):
        """the pivot column is one where the vector is not zero, without a pivot so far"""
        S = self.S
        for x, fs in self.flow(self.Jv):
            t = S.t(x)
            d = add(J, t, -1)
            if any(trips.contradicts(f, g) for f in self.P.facts for g in (("eq0", d), ("eq0", add(C(0), d, -1)))):
                continue
            v = ("ld", el(cb, t))
            if not any(trips.contradicts(f, ("eq0", v)) for f in fs):
                self.bad("pivot", b, "zero", "the pivot chosen may be a zero coefficient")
                return False
            if not any(trips.contradicts(f, g) for f in fs for g in self.pivotal(t)):
                self.bad("pivot", b, "again", "the pivot chosen may be on a column that already has a pivot")
                return False
        return True

    def parts(self, cb, jb):
        if cb[0] == "ld" and cb[1][0] == "fld" and cb[1][2:] == ("spasm_csr", 5) and jb == ("ld", ("fld", cb[1][1], "spasm_csr", 4)):
            return cb[1][1]
        return None

    def pivot_value(self, v, J, good, b, A=None):
        """v is the coefficient found on the pivot column"""
        S = self.S
        v = self.P.resolve(v)
        if A is None:
            if good(S.t(v)):
                return True
            self.bad("unit", b, "pivot", "the coefficient inverted is not the one on the column of the first entry")
            return False
        n = 0
        for x, fs in self.flow(v):
            t = S.t(x)
            if t == C(0):
                continue
            n += 1
            p = good(t)
            if p is None or not (self.isj(fs, ("ld", el(("ld", ("fld", A, "spasm_csr", 4)), p)), J)):
                self.bad("unit", b, "pivot", "the coefficient inverted is not the one on the column of the first entry")
                return False
        if not n:
            self.bad("unit", b, "pivot", "the coefficient inverted is not found in the row")
        return n > 0

    def in_row(self, t, A, i):
        if t[0] != "ld":
            return None
        o, x = target(t[1])
        if o != ("fld", A, "spasm_csr", 5):
            return None
        return x

    def flow(self, v):
        """[(value, conditions holding when it was chosen)]"""
        S = self.S
        out, todo, seen = [], [(v, None, ())], set()
        while todo:
            x, b, fs = todo.pop()
            x = strip(x)
            if (x, b) in seen:
                continue
            seen.add((x, b))
            if x.kind == "inst" and x.op == "phi":
                for y, p in x.incoming:
                    f = tuple(self.conds(p, x.block))
                    todo.append((y, p, fs + f))
            elif x.kind == "inst" and x.op == "select":
                c = S.cond(S.t(x.ops[0]))
                todo.append((x.ops[1], (x, 1), fs + tuple(facts(c, True))))
                todo.append((x.ops[2], (x, 2), fs + tuple(facts(c, False))))
            else:
                if b is None:
                    fs = fs + tuple(self.conds(x.block, None)) if x.kind == "inst" else fs
                out.append((x, fs))
        return out

    def conds(self, b, to):
        S = self.S
        out = []
        if to is not None:
            for k, s in enumerate(b.succs):
                if s is to and len(b.term.targets) == 2 and b.term.op == "br":
                    out += list(edge_facts(S, b, b.term.targets.index(to)))
                    break
        for c, truth, term in cfg.dominating_conditions(b):
            out += list(facts(S.cond(S.t(c)), truth))
        return out

    def skipped(self, Q, app, J):
        S = self.S
        for P, a, b in app:
            j, x = self.vals(P, a, b)
            co = []
            for y in (self.leaves(x, P)):
                if y.kind == "inst" and y.op == "call":
                    co.append(S.t(y))
                    if y.callee_name() != "spasm_datatype_read":
                        co += [S.t(P.resolve(o)) for o in y.ops[1:3]]
            fs = list(Q.facts)
            for c in co:
                if any(trips.contradicts(f, ("ne0", c)) for f in fs):
                    return True
            if self.isj(fs, j, J):
                return True
            q = ("ld", el(("ld", self.qinv), j))
            if any(trips.contradicts(f, ("lt0", q)) for f in fs) or any(trips.contradicts(f, ("eq0", add(q, C(1)))) for f in fs):
                return True
        return False

    # -- rows of a dense block
    def dense(self, l, a, b, j, x, J, rng):
        S, L = self.S, self.L
        ij = el_parts(j)
        iJ = el_parts(J)
        if ij is None or iJ is None or ij[0] != iJ[0] or ij[1] != iJ[1]:
            self.bad("unit", b, "table", "the columns of the pivot and of the other entries are not translated by the same tables")
            return False
        q, T, k = ij
        i = iJ[2]
        buf, off = S.t(x.ops[0]), S.t(x.ops[1])
        calls = self.producer(buf, T)
        if not calls:
            self.bad("unit", b, "source", "the coefficients of the row do not come from the last dense elimination")
            return False
        lu = any(c.callee_name() == "spasm_ffpack_LU" for c in calls)
        for c in calls:
            ld, m = S.t(c.ops[4]), S.t(c.ops[2])
            if off != add(mul(i, ld), k):
                self.bad("unit", b, "address", "the coefficient is not read at the row and column the entry belongs to")
                return False
            if rng.hi != m or k != rng.term:
                self.bad("complete", a, "range", "the loop does not run through the remaining columns of the dense block")
                return False
        outer = next((r for r in loop_ranges(S, L) if r.term == i and r.step in (1, -1) and r.full()), None)
        if outer is None or outer.lo != C(0) or outer.hi not in self.results(calls):
            self.bad("complete", a, "rows", "the rows appended are not exactly the rows with a pivot of the dense block")
            return False
        want = {add(i, C(1))} if lu else self.results(calls) | {add(i, C(1))}
        if rng.lo not in want:
            self.bad("complete", a, "range", "the loop does not start right after the pivots of the dense block")
            return False
        self.ok("unit", b)
        self.lu = (tuple(calls), buf, i, outer.hi) if lu else None
        return True

    def results(self, calls):
        """terms for the rank returned by the calls"""
        S = self.S
        out = set()
        vals = set(calls)
        for c in calls:
            out.add(S.t(c))
        for b in self.f.blocks:
            for p in b.phis:
                if all(strip(v) in vals for v, q in p.incoming):
                    out.add(S.t(p))
        return out

    def producer(self, buf, T):
        """the dense eliminations which may have produced the block"""
        S = self.S
        cs = [i for b in self.f.blocks for i in b.insts if i.op == "call" and i.callee_name() in FF and S.t(i.ops[3]) == buf]
        h = self.L.header
        live = []
        for c in cs:
            # reaches the emission without another elimination in between
            def other(i, c=c):
                return i in cs and i is not c
            if cfg.path_inst(c, h.insts[0] if h.insts else h.term, other):
                live.append(c)
        for c in live:
            k = FF[c.callee_name()][0]
            if S.t(c.ops[k]) != T:
                return None
        return live

    # -- recording in L
    def record(self, P, J, last):
        S, rep = self.S, self.rep
        if getattr(self, "lu", None):
            self.record_lu(P, last)
            return
        null = [("eq0", self.Lt), ("eq0", ("pdiff", self.Lt, ("null",)))]
        isnull = any(trips.contradicts(f, ("ne0", x[1])) for f in P.facts for x in null)
        if isnull or not hasattr(self, "piv"):
            return
        lp = [i for i in self.order if i.op == "store" and target(S.t(i.ops[1]))[0] == self.Lp]
        ent = []
        for i in self.order:
            if i.op == "call" and i.callee_name() == "spasm_add_entry" and S.t(i.ops[0]) == self.Lt:
                ent.append((i, i.ops[1], i.ops[2], i.ops[3]))
        tri = {}
        for i in self.order:
            if i.op == "store" and cfg.innermost_loop(i.block) is self.L:
                o, x = target(S.t(i.ops[1]))
                if o is not None and o[0] == "fld" and o[1] == self.Lt and o[2] == "spasm_triplet" and o[3] in (4, 5, 6):
                    v = self.index(i)
                    p = P.lin(v) if v is not None else x
                    tri.setdefault(p, {})[o[3]] = i
        for p, d in tri.items():
            if len(d) == 3:
                ent.append((d[6], d[4].ops[0], d[5].ops[0], d[6].ops[0]))
            else:
                self.bad("recorded", list(d.values())[0], "partial", "an entry recorded in L does not get its row, column and "
                         "coefficient at the same position")
        ent = [e for e in ent if self.rown(e[2], P) is not None]
        if len(ent) != 1 or len(lp) != 1:
            self.bad("recorded", last, "missing", "on a path appending a row while L is recorded, the pivot coefficient and the "
                     "originating row are not recorded exactly once")
            return
        e = ent[0]
        if self.rown(e[2], P) != 0:
            self.bad("recorded", e[0], "column", "the pivot is recorded in another column of L than the number of the row appended")
            return
        if self.piv not in (S.t(e[3]), S.t(P.resolve(e[3]))):
            self.bad("recorded", e[0], "coefficient", "the coefficient recorded in L for the pivot is not the coefficient whose inverse "
                     "the row was multiplied by")
            return
        x = self.index(lp[0])
        if x is None or self.rown(x, P) != 0:
            self.bad("recorded", lp[0], "slot", "the originating row is not recorded for the row being appended")
            return
        for i, v in ((lp[0], lp[0].ops[0]), (e[0], e[1])):
            if not self.origin(v, self.row):
                self.bad("recorded", i, "row", "the row recorded in L is not the originating row of the one eliminated")
                return
        self.ok("recorded", e[0])

    def origin(self, v, row):
        """v is the original number of row `row`: table[row] if there is a table, row otherwise"""
        t = self.S.t(v)
        if t[0] != "sel":
            return False
        c, a, b = t[1:]
        if b != row:
            c, a, b = ("not", c), b, a
        if b != row or a[0] != "ld":
            return False
        base, x = el_split(a[1])
        if x != row:
            return False
        return any(w == base for w in walk(c)) and base not in list(walk(row))

    def record_lu(self, P, last):
        """the loops copying the unit-free triangle of the dense block into L"""
        S, rep = self.S, self.rep
        if self.lu in self.done:
            return
        calls, buf, i, r = self.lu
        self.done.add(self.lu)
        c = calls[0]
        rowtab, ld = S.t(c.ops[6]), S.t(c.ops[4])
        unum = ("ld", self.n)
        ok = False
        found = []
        for b in self.f.blocks:
            for st in b.insts:
                if st.op != "store":
                    continue
                o, x = target(S.t(st.ops[1]))
                if o != ("fld", self.Lt, "spasm_triplet", 6):
                    continue
                v = strip(st.ops[0])
                if not (v.kind == "inst" and v.op == "call" and v.callee_name() == "spasm_datatype_read" and S.t(v.ops[0]) == buf):
                    continue
                if not self.from_call(c, st):
                    continue
                found.append((st, x, v))
        if not found:
            self.bad("recorded", last, "missing", "rows of a dense block are appended to U but its other factor is not put into L")
            return
        for st, x, v in found:
            self.lu_entry(st, x, v, c, buf, r, rowtab, ld, unum, last)

    def from_call(self, c, st):
        def other(i):
            return i.op == "call" and i.callee_name() in FF and i is not c
        return cfg.path_inst(c, st, other) and cfg.dominates(c.block, st.block) and not cfg.dominates(self.L.header, st.block)

    def lu_entry(self, st, x, v, c, buf, r, rowtab, ld, unum, last):
        S = self.S
        l = cfg.innermost_loop(st.block)
        lo = l.parent if l else None
        if lo is None:
            self.bad("recorded", st, "loops", "the entries put into L are not those of the dense block")
            return
        comp = {}
        for b in l.blocks:
            for s in b.insts:
                if s.op == "store":
                    o, y = target(S.t(s.ops[1]))
                    if o is not None and o[0] == "fld" and o[1] == self.Lt and o[2] == "spasm_triplet" and y == x:
                        comp[o[3]] = s
        if 4 not in comp or 5 not in comp:
            self.bad("recorded", st, "partial", "an entry recorded in L does not get its row, column and coefficient at the same position")
            return
        ri = next((q for q in loop_ranges(S, l) if q.step == 1), None)
        ro = next((q for q in loop_ranges(S, lo) if q.step == 1), None)
        if ri is None or ro is None or not ri.full() or not ro.full():
            self.bad("recorded", st, "range", "the loops putting the dense block into L do not run through all its rows and columns")
            return
        i, j = ro.term, ri.term
        if S.t(v.ops[1]) != add(mul(i, ld), j):
            self.bad("recorded", st, "address", "the coefficient put into L is not read at the row and column it is recorded for")
            return
        if S.t(comp[5].ops[0]) != add(unum, j):
            self.bad("recorded", comp[5], "column", "an entry of a dense block is recorded in another column of L than the number of "
                     "its row of U")
            return
        row = ("ld", el(rowtab, i))
        if not self.origin(comp[4].ops[0], row):
            self.bad("recorded", comp[4], "row", "the row recorded in L is not the originating row of the one eliminated")
            return
        hi = ri.hi
        res = self.results([c])
        mins = {("min", a, b) for z in res for a, b in ((add(i, C(1)), z), (z, add(i, C(1))))}
        n = S.t(c.ops[1])
        if ri.lo != C(0) or not (hi in mins or self.ismin(hi, add(i, C(1)), res)):
            self.bad("recorded", st, "triangle", "the loop does not run through the columns up to the diagonal of the dense block")
            return
        oh = ro.hi
        if ro.lo != C(0) or not (oh in res or oh == n or oh[0] == "sel" and {oh[2], oh[3]} <= res | {n}):
            self.bad("recorded", st, "rows", "the loop does not run through the rows of the dense block")
            return
        ts = trips.trips(S, l) or []
        ct = S.t(v)
        for Q in ts:
            if st.block not in Q.set and not any(trips.contradicts(f, ("ne0", ct)) for f in Q.facts):
                self.bad("recorded", st, "skip", "a nonzero entry of the dense block may be left out of L")
                return
        # originating rows of the new rows of U
        lps = [s for b in self.f.blocks for s in b.insts if s.op == "store" and target(S.t(s.ops[1]))[0] == self.Lp and
               self.from_call(c, s)]
        good = False
        for s in lps:
            li = cfg.innermost_loop(s.block)
            while li is not None and not good:
                for q in loop_ranges(S, li):
                    if q.step == 1 and q.full() and q.lo == C(0) and target(S.t(s.ops[1]))[1] == add(unum, q.term) and \
                            self.origin(s.ops[0], ("ld", el(rowtab, q.term))):
                        tl = trips.trips(S, li) or []
                        allp = bool(tl)
                        for Q in tl:
                            if s.block not in Q.set and not any(
                                    trips.contradicts(f, ("lt0", add(q.term, z, -1))) for f in Q.facts for z in res):
                                allp = False
                        h = q.hi
                        if allp and (h in res or h == oh):
                            good = True
                li = li.parent
        if not good:
            self.bad("recorded", st, "origins", "the originating rows of the new rows of U are not all recorded")
            return
        self.ok("recorded", st)

    def ismin(self, t, a, res):
        d, k = to_poly(t)
        if len(d) == 1 and list(d.values()) == [1] and len(list(d)[0]) == 1 and list(d)[0][0][0] in ("sel", "min"):
            z = list(d)[0][0]
            t = ("sel", z[1], add(z[2], C(k)), add(z[3], C(k))) if z[0] == "sel" else ("min",) + tuple(add(y, C(k)) for y in z[1:])
        for z in res:
            for x, y in ((a, z), (z, a)):
                if t == ("min", x, y) or t[0] == "min" and set(t[1:]) == {x, y}:
                    return True
                if t[0] == "sel" and {t[2], t[3]} == {x, y}:
                    c = t[1]
                    d = add(x, y, -1)
                    if c[0] == "lt0":
                        lo = t[2]
                        other = t[3]
                        p, k = to_poly(add(c[1], add(lo, other, -1), -1))
                        if not p and k in (0, -1, 1):
                            return True
        return False


def root_in(P, ph, l, ins):
    p = P.entered.get(ph.block)
    for v, b in ph.incoming:
        if b is p:
            return v
    return ins[0]


def el_parts(t):
    """q[T[k]] -> (q, T, k)"""
    if t[0] != "ld":
        return None
    q, x = el_split(t[1])
    if x[0] != "ld":
        return None
    T, k = el_split(x[1])
    return q, T, k


def check(b, rep):
    M = b.lib()
    rep.rule("row", "each row appended to U is written position by position, one column and one coefficient each, nothing elsewhere")
    rep.rule("pivot", "the first entry of the row is the pivot, with the constant 1, and the pivot does not come again")
    rep.rule("unit", "every other coefficient is that of its own column, multiplied by the inverse of the coefficient of the pivot (or "
             "read from the reduced dense block at its own place)")
    rep.rule("complete", "the whole row is copied: only zeros, the pivot and columns that have a pivot are left out")
    rep.rule("registered", "the pivot column is registered as pointing to the row appended")
    rep.rule("pointer", "the row count advances by one and the next row pointer is the end of the entries written")
    rep.rule("recorded", "when L is recorded: the pivot coefficient, in the column of the new row, with the originating row")
    n = 0
    for u in pts.units(M):
        if "SHA256" in u.fn.name:
            continue
        S = Sym(u, M)
        em = {}
        for f in u.fns:
            for i in f.insts():
                if i.op != "store":
                    continue
                t = S.t(i.ops[1])
                if t[0] == "fld" and t[2:] == ("spasm_csr", 1) and is_U(t[1]) and cfg.innermost_loop(i.block):
                    em.setdefault((f, t[1]), {"p": [], "j": [], "x": [], "n": []})["n"].append(i)
                    continue
                o, x = target(t)
                if o is None or o[0] != "fld" or o[2] != "spasm_csr" or o[3] not in TABLES or not is_U(o[1]):
                    continue
                if cfg.innermost_loop(i.block) is None:
                    continue
                em.setdefault((f, o[1]), {"p": [], "j": [], "x": [], "n": []})[TABLES[o[3]]].append(i)
        for (f, U), d in em.items():
            used = set()
            Ls = []
            for s in d["p"] + d["n"]:
                l = cfg.innermost_loop(s.block)
                if l not in Ls:
                    Ls.append(l)
            Ls = sorted(Ls, key=lambda l: len(l.blocks))
            for L in Ls:
                mine = {k: [s for s in v if s.block in L.blocks and s not in used] for k, v in d.items()}
                for v in mine.values():
                    used |= set(v)
                n += 1
                Emit(rep, S, u, f, L, U, mine, M).run()
            for k in ("j", "x"):
                for s in d[k]:
                    if s not in used:
                        rep.bad("row", "%s %s" % (s.block.fn.name, s.loc), "stray", "entries are written into U outside any row being "
                                "appended")
    rep.need("row", 5)
    rep.extra["emissions"] = n
    rep.expl = ("Every loop appending rows to the U of a factorization is followed trip by trip: what is written at the start of the row, "
             "at the following positions, in the pivot table, in the row pointers and (when recorded) in L, is compared as terms over "
             "the values of the trip, and the loop appending the other entries is checked to run over the whole source row.")


if __name__ == "__main__":
    sys.exit(run("P16", check))
