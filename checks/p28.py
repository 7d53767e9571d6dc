"""P28: triangular solves, solutions, kernels and reduced forms are assembled by their defining formula."""
from common import *
from itertools import product
import sym
import nest
from sym import C, add, el, el_split, mul, neg_cond, show, subst
from nest import HARMLESS, Store, Tree
from trips import canon, contradicts
from p27 import CSR, TRI, NULL, Bad, Checker, Op, accumulate, arg, at, fld, implied, loc, modes, nonneg

LU = "spasm_lu"
PTR = {CSR: (3, 4, 5), TRI: (4, 5, 6), LU: (2, 3, 4, 5, 6)}
RES = ("spasm_csr_alloc", "spasm_triplet_alloc", "spasm_transpose")


def opp(t):
    return (add(C(0), t, -1), ("zz", "sub", C(0), t))


def absent(c):
    """tables hold -1 where there is nothing: being -1 and being negative are the same"""
    def f(t):
        if t[0] in ("eq0", "ne0"):
            for v in (add(t[1], C(-1)), add(add(C(0), t[1], -1), C(-1))):
                if v[0] in ("ld", "ldv") and v[1][0] == "el":
                    r = ("lt0", v)
                    return r if t[0] == "eq0" else neg_cond(r)
    return subst(c, f)


class Asm(Op):
    def __init__(self, ck, name, mode):
        Op.__init__(self, ck, name, mode)
        self.T.limit = 20000
        self.T.stable = self.stable
        self.T.rewrite = absent
        self.stored = set()
        self.const = set()
        for i in self.u.insts():
            if i.op == "store":
                a = self.S.t(i.ops[1])
                if a[0] == "fld":
                    self.stored.add(a[2:])

    # -- terms -------------------------------------------------------------
    def stable(self, t):
        return t[0] == "call" or t[0] == "ld" and t[1][0] == "fld" and t[1][2:] not in self.stored

    def readonly(self, *bases):
        """arrays the callees do not change (declared const); this function must not either"""
        for i in self.u.insts():
            if i.op == "store" and el_split(self.S.t(i.ops[1]))[0] in bases:
                raise Bad(i.loc, "a read-only array is written to")
        self.const = set(bases)

    def array(self, t, seen=()):
        """the array of an object a pointer stands for, whatever path it was reloaded on"""
        if t in seen:
            return "self"
        if t[0] in ("ld", "ldv") and t[1][0] == "fld" and t[1][3] in PTR.get(t[1][2], ()) and t[1][2] in (CSR, TRI):
            return ("ld", t[1])
        if t[0] == "phi" and t[1].type == "ptr":
            out = set()
            for v, _ in t[1].incoming:
                x = self.S.t(v)
                r = self.array(x, seen + (t,))
                if r is None:
                    return None
                if r != "self":
                    out.add(r)
            return out.pop() if len(out) == 1 else None if out else "self"
        if t[0] == "sel":
            a, b = self.array(t[2], seen), self.array(t[3], seen)
            d = self.mode.decide(t[1])
            if d is not None:
                return a if d else b
            if a == "self" or b == "self":
                return b if a == "self" else a
            if a == b:
                return a
        if t == NULL:
            return None
        return None

    def norm(self, t):
        if t[0] == "ldv" and (t[1][0] == "fld" and t[1][2:] not in self.stored or el_split(t[1])[0] in self.const):
            return ("ld", t[1])
        if t[0] in ("phi", "sel") or t[0] == "ldv" and t[1][0] == "fld":
            a = self.array(t)
            if a is not None and a != "self" and a != t:
                return a
        if t[0] == "ld" and t[1][0] == "fld" and t[1][2:] in self.stored:
            return None
        return Op.norm(self, t)

    # -- events ------------------------------------------------------------
    def reach(self, L):
        out = set(self.touched(L))
        for b in L.blocks:
            for i in b.insts:
                if i.op == "call":
                    n = i.callee_name() or "?"
                    if n not in HARMLESS and not n.startswith("llvm."):
                        for o in i.ops:
                            if o.type == "ptr":
                                out.add(el_split(self.T.norm(self.S.t(o)))[0])
        return out

    def rel(self, q, arrays):
        """the events that may write to one of the arrays, in order"""
        out = []
        for e in q.events:
            if isinstance(e, Store):
                if e.base in arrays:
                    out.append(e)
            elif e[0] == "loop":
                if self.reach(e[1]) & set(arrays):
                    out.append(e)
            elif e[1].startswith(("llvm.mem", "mem")):
                if el_split(e[2][0])[0] in arrays:
                    out.append(e)
            elif e[1] not in HARMLESS and not e[1].startswith("llvm."):
                if {el_split(a)[0] for a in e[2]} & set(arrays):
                    out.append(e)
        return out

    def filled(self, e, W, n, v, size=4):
        """event e sets W[0..n) to the constant v, and does nothing else"""
        if isinstance(e, Store):
            return False
        if e[0] == "call":
            return e[1].startswith(("llvm.memset", "memset")) and e[2][0] == W and e[2][2] == mul(n, C(size)) and (
                e[2][1] == C(v) or v == -1 and e[2][1] == C(255))
        r = self.T.counter(e[1], e[2], C(0), n)
        bs = self.T.bodies(e[1])
        return r is not None and bool(bs) and all(
            not q.loops() and [(s.addr, s.val) for s in q.stores()] == [(el(W, r), C(v))] for q in bs)

    def copied(self, e, W, src, n):
        if isinstance(e, Store):
            return False
        if e[0] == "call":
            return e[1].startswith(("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")) and \
                e[2][:3] == (W, src, mul(n, C(4)))
        r = self.T.counter(e[1], e[2], C(0), n)
        bs = self.T.bodies(e[1])
        return r is not None and bool(bs) and all(
            not q.loops() and [(s.addr, s.val) for s in q.stores()] == [(el(W, r), at(src, r))] for q in bs)

    def row_add(self, e, A, i, betas, x, fs):
        """event e adds beta times row i of A to x"""
        if isinstance(e, Store):
            raise Bad(loc(e), "unexpected write to %s" % show(e.addr))
        if e[0] == "call":
            if e[1] != "spasm_scatter":
                raise Bad(e[3].loc, "unexpected call of %s" % e[1])
            a = e[2]
            if a[0] != A or a[1] != i or a[2] not in betas or a[3] != x:
                raise Bad(e[3].loc, "adds %s times row %s of %s to %s, not %s times row %s of %s to %s" % (
                    show(a[2]), show(a[1]), show(a[0]), show(a[3]), show(betas[0]), show(i), show(A), show(x)))
            return
        px = self.T.counter(e[1], e[2], at(fld(A, 3), i), at(fld(A, 3), add(i, C(1))))
        if px is None:
            raise Bad(loc(e[1]), "not every entry of row %s is added exactly once" % show(i))
        for s in self.T.bodies(e[1]):
            err = None
            for bt in betas:
                try:
                    accumulate(self, s, el(x, at(fld(A, 4), px)), (bt, at(fld(A, 5), px)), "entry", {x}, fs)
                    err = None
                    break
                except Bad as b:
                    err = b
            if err:
                raise err

    def asc(self, L, term, step):
        """the counter advances by step on each trip"""
        for q in self.T.bodies(L):
            n = subst(term, lambda t: q.next.get(t[1]) if t[0] == "phi" else None)
            if add(n, term, -1) != C(step):
                return False
        return True

    def last(self, q, events=None):
        """final values of the cells written in straight line"""
        out = {}
        for e in (q.events if events is None else events):
            if isinstance(e, Store):
                out[e.addr] = e
        return out

    def zeroed_top(self, p, before, W, n, what):
        ev = self.rel(p, {W})
        k = ev.index(before)
        if W[0] == "call" and W[1] in ("spasm_calloc", "calloc") and k == 0:
            return
        if k != 1 or not self.filled(ev[0], W, n, 0):
            raise Bad(loc(before[1]) if before[0] == "loop" else self.name, "%s is not cleared beforehand" % what)


def atoms(c, out):
    if c[0] in ("and", "or", "not"):
        for x in c[1:]:
            atoms(x, out)
    elif c[0] != "c":
        out.add(canon(c)[0])
    return out


def truth(c, asg):
    if c[0] == "and":
        return all(truth(x, asg) for x in c[1:])
    if c[0] == "or":
        return any(truth(x, asg) for x in c[1:])
    if c[0] == "not":
        return not truth(c[1], asg)
    if c[0] == "c":
        return bool(c[1])
    a, pol = canon(c)
    return asg[a] == pol


def equivalent(a, b):
    """two conditions agree, whatever their atoms"""
    at = sorted(atoms(a, atoms(b, set())), key=sym.key)
    return len(at) <= 10 and all(truth(a, g) == truth(b, g) for g in (
        dict(zip(at, v)) for v in product((True, False), repeat=len(at))))


# -- dense triangular solves ---------------------------------------------------
def diag(op, q, A, i, j):
    """terms for the coefficient of row i on column j, found by scanning the row"""
    out = []
    Ap, Aj, Ax = fld(A, 3), fld(A, 4), fld(A, 5)
    for e in q.loops():
        L = e[1]
        if op.reach(L):
            continue
        px = None
        for r in nest.loop_ranges(op.S, L):
            if e[2].get(r.phi) == at(Ap, i) and r.step == 1 and op.T.norm(r.hi) == at(Ap, add(i, C(1))) and r.term == ("phi", r.phi):
                px = r.term
        if px is None:
            continue
        hit = ("eq0", add(at(Aj, px), j, -1))
        here = op.T.left(L, e[3])
        if here and all(implied(hit, s.facts) for s in here):
            out.append(at(Ax, px))
        for ph in L.header.phis:
            ns = [(s.next[ph], s.facts) for s in op.T.bodies(L)]
            for v in (px, at(Ax, px)):
                if all(n == ("phi", ph) or n == v and implied(hit, f) for n, f in ns) and any(n == v for n, _ in ns):
                    out.append(("phi", ph) if v != px else at(Ax, ("phi", ph)))
    return out


def back_solve(op, m):
    L, b, x, P = [arg(k) for k in range(4)]
    n, r = fld(L, 1), fld(L, 2)
    for p in op.paths():
        ev = op.rel(p, {x, b})
        ls = [e for e in ev if not isinstance(e, Store) and e[0] == "loop" and b in op.reach(e[1])]
        if not ls and op.empty(p, C(0), r):
            continue
        if len(ls) != 1:
            raise Bad(op.name, "not exactly one loop over the columns")
        e = ls[0]
        op.zeroed_top(p, e, x, n, "the solution")
        if ev[-1] is not e:
            raise Bad(op.name, "the solution is changed after the columns were processed")
        j = op.counter(e[1], e[2], C(0), r, "the columns")
        if not op.asc(e[1], j, -1):
            raise Bad(loc(e[1]), "the columns are not processed from the last to the first")
        i = j if m.null[P] else at(P, j)
        for q in op.T.bodies(e[1]):
            cells = op.last(q)
            got = cells.get(el(x, i))
            if got is None:
                if not q.stores() and implied(("eq0", at(b, j)), q.facts):
                    continue
                raise Bad(loc(q), "x[%s] is not computed for a column" % show(i))
            val = got.val
            want = [("zz", "mul") + tuple(sorted((at(b, j), ("zz", "inverse", d)), key=sym.key))
                    for d in diag(op, q, L, i, j)]
            if val not in want:
                raise Bad(loc(got), "x[%s] becomes %s, not b[%s] divided by the entry of row %s on column %s" % (
                    show(i), show(val), show(j), show(i), show(j)))
            adds = [a for a in op.rel(q, {b}) if not isinstance(a, Store)]
            for a in q.stores():
                if a.addr != el(x, i):
                    raise Bad(loc(a), "unexpected write to %s" % show(a.addr))
            if len(adds) != 1:
                raise Bad(loc(q), "row %s is not eliminated exactly once" % show(i))
            op.row_add(adds[0], L, i, opp(val), b, q.facts)


def forward_solve(op, m):
    U, b, x, Q = [arg(k) for k in range(4)]
    n, mm = fld(U, 1), fld(U, 2)
    for p in op.paths():
        ev = op.rel(p, {x, b})
        ls = [e for e in ev if not isinstance(e, Store) and e[0] == "loop" and b in op.reach(e[1])]
        if not ls and op.empty(p, C(0), n):
            continue
        if len(ls) != 1:
            raise Bad(op.name, "not exactly one loop over the rows of U")
        e = ls[0]
        op.zeroed_top(p, e, x, n, "the solution")
        if ev[-1] is not e:
            raise Bad(op.name, "the solution is changed after the rows were processed")
        i = op.counter(e[1], e[2], C(0), n, "the rows of U")
        if not op.asc(e[1], i, 1):
            raise Bad(loc(e[1]), "the rows are not processed from the first to the last")
        j = i if m.null[Q] else at(Q, i)
        v = at(b, j)
        for q in op.T.bodies(e[1]):
            if implied(("eq0", v), q.facts):
                for s in q.stores():
                    if s.addr != el(x, i) or s.val not in (C(0), v):
                        raise Bad(loc(s), "unexpected write to %s" % show(s.addr))
                continue
            cells = op.last(q)
            if set(cells) != {el(x, i)} or cells[el(x, i)].val != v:
                raise Bad(loc(q), "a row whose pivot column is not zero does not get its coefficient %s in x" % show(v))
            adds = [a for a in op.rel(q, {b}) if not isinstance(a, Store)]
            if len(adds) != 1:
                raise Bad(loc(q), "row %s is not eliminated exactly once" % show(i))
            op.row_add(adds[0], U, i, opp(v), b, q.facts)
        verdict(op, p, e, b, mm)


def verdict(op, p, after, b, n):
    """the returned value is true iff b is zero on 0..n-1 after the elimination"""
    k = p.events.index(after)
    ls = [e for e in p.events[k + 1:] if not isinstance(e, Store) and e[0] == "loop"]
    if len(ls) != 1:
        raise Bad(op.name, "the rest of the right-hand side is not examined by one loop on a path returning %s" % show(p.ret))
    e = ls[0]
    L = e[1]
    ends = op.T.left(L, e[3])
    rs = [r for r in nest.loop_ranges(op.S, L) if e[2].get(r.phi) == C(0) and r.step == 1 and op.T.norm(r.hi) == n
          and r.term == ("phi", r.phi)]
    if not rs:
        raise Bad(loc(L), "not every column of the right-hand side is examined")
    j = rs[0].term
    ne = ("ne0", at(b, j))
    if any(s.stores() or s.loops() for s in op.T.trips(L)):
        raise Bad(loc(L), "unexpected write")
    r = p.ret
    if r is not None and r[0] == "c" or r in (eqs := (("eq0", add(j, n, -1)), ("eq0", add(n, j, -1)),
                                                      neg_cond(("lt0", add(j, n, -1))))) or neg_cond(r) in eqs:
        for s in ends:
            if any(contradicts(f, g) for f in s.facts for g in p.facts):
                continue
            done = implied(nonneg(add(j, n, -1)), s.facts)
            v = r == C(1) if r[0] == "c" else done == (r in eqs)
            if not done and not implied(ne, s.facts):
                raise Bad(loc(L), "the examination of the right-hand side may stop early")
            if v != done:
                raise Bad(loc(L), "%s is reported although %s of the right-hand side" % (
                    ("success", "something may be left") if v else ("failure", "nothing is known to be left")))
        if not all(implied(neg_cond(ne), s.facts) for s in op.T.bodies(L)):
            raise Bad(loc(L), "success is reported although something may be left of the right-hand side")
        return
    if r is not None and r[0] == "ne0":
        r = r[1]
    if r is not None and r[0] == "phi" and r[1] in L.header.phis:
        ph = r[1]
        if e[2].get(ph) == C(1):
            for s in op.T.bodies(L):
                w = s.next[ph]
                if implied(ne, s.facts) and w == C(0) or implied(neg_cond(ne), s.facts) and w == r:
                    continue
                raise Bad(loc(L), "the verdict does not follow the columns examined")
            for s in ends:
                if not implied(ne, s.facts) and not implied(nonneg(add(j, n, -1)), s.facts):
                    raise Bad(loc(L), "the examination stops before the last column")
            return
    raise Bad(op.name, "the returned value %s does not tell whether the right-hand side was eliminated" % (show(p.ret) if p.ret else "?"))


def sparse_solve(op, m):
    U, B, k, xj, x, qinv = [arg(i) for i in range(6)]
    mm = fld(U, 2)
    for p in op.paths():
        rc = p.calls("spasm_reach")
        if len(rc) != 1 or rc[0][2] != (U, B, k, mm, xj, qinv):
            raise Bad(rc[0][3].loc if rc else op.name, "the pattern is not computed by one search from row k of B through U")
        top = ("call", "spasm_reach", rc[0][3])
        if p.ret != top:
            raise Bad(op.name, "the start of the pattern is not returned")
        ev = op.rel(p, {x})
        if op.empty(p, top, mm) and len(ev) < 3:
            continue
        if len(ev) != 3 or any(isinstance(e, Store) for e in ev) or p.events.index(rc[0]) > p.events.index(ev[0]):
            raise Bad(op.name, "the steps are not: search, clear, scatter, eliminate")
        e = ev[0]
        ok = e[0] == "loop"
        if ok:
            r = op.T.counter(e[1], e[2], top, mm)
            ok = r is not None and all([(s.addr, s.val) for s in q.stores()] == [(el(x, at(xj, r)), C(0))]
                                       for q in op.T.bodies(e[1]))
        if not ok:
            raise Bad(loc(e[1]) if e[0] == "loop" else op.name, "the result is not cleared on the whole pattern")
        op.row_add(ev[1], B, k, (C(1),), x, p.facts)
        e = ev[2]
        if e[0] != "loop":
            raise Bad(op.name, "the pattern is not processed by one loop")
        px = op.counter(e[1], e[2], top, mm, "the pattern")
        if not op.asc(e[1], px, 1):
            raise Bad(loc(e[1]), "the pattern is not processed in topological order")
        j = at(xj, px)
        i, v = at(qinv, j), at(x, j)
        for q in op.T.bodies(e[1]):
            w = op.rel(q, {x})
            if not w and (implied(("lt0", i), q.facts) or implied(("eq0", v), q.facts)):
                continue
            adds = [a for a in w if not isinstance(a, Store)]
            if not implied(nonneg(i), q.facts):
                raise Bad(loc(q), "a column without pivot is eliminated")
            if len(adds) != 1:
                raise Bad(loc(q), "a pivotal column is not eliminated exactly once")
            op.row_add(adds[0], U, i, opp(v), x, q.facts)
            st = [s for s in w if isinstance(s, Store)]
            if not st or w[-1] is not st[-1] or st[-1].addr != el(x, j) or st[-1].val != v:
                raise Bad(loc(q), "the coefficient of the row is not left in x[%s]" % show(j))
            for s in st[:-1]:
                raise Bad(loc(s), "unexpected write to %s" % show(s.addr))


def solve(op, m):
    F, b, x = [arg(k) for k in range(3)]
    Lm, U, qinv, P = fld(F, 2, LU), fld(F, 3, LU), fld(F, 4, LU), fld(F, 5, LU)
    mm = fld(U, 2)
    for p in op.paths():
        f, g = p.calls("spasm_dense_forward_solve"), p.calls("spasm_dense_back_solve")
        if len(f) != 1 or len(g) != 1 or p.events.index(f[0]) > p.events.index(g[0]):
            raise Bad(op.name, "not one forward solve with U followed by one back solve with L")
        y, z, q = f[0][2][1:4]
        if f[0][2][0] != U:
            raise Bad(f[0][3].loc, "the forward solve is not given U")
        if g[0][2] != (Lm, z, x, P):
            raise Bad(g[0][3].loc, "the back solve is not given L, the result of the forward solve, x and the rows of L")
        if len({y, z, q}) != 3 or any(t[0] != "call" for t in (y, z, q)):
            raise Bad(f[0][3].loc, "the work vectors are not distinct new arrays")
        ev = op.rel(p, {y})
        if ev and ev[0] is f[0] and op.empty(p, C(0), mm):
            continue
        if len(ev) != 2 or ev[1] is not f[0] or not op.copied(ev[0], y, b, mm):
            raise Bad(f[0][3].loc, "the forward solve is not given a copy of the right-hand side")
        ev = op.rel(p, {q})
        if len(ev) != 2 or ev[1] is not f[0]:
            raise Bad(f[0][3].loc, "the column of each pivot is not tabulated before the forward solve")
        inverse(op, ev[0], q, qinv, mm)
        ev = op.rel(p, {z})
        if [e for e in ev] != [f[0], g[0]]:
            raise Bad(op.name, "the intermediate vector is changed between the two solves")
        c = ("call", "spasm_dense_forward_solve", f[0][3])
        if p.ret not in (c, ("ne0", c)) and not (
                p.ret == C(1) and implied(("ne0", c), p.facts) or p.ret == C(0) and implied(("eq0", c), p.facts)):
            raise Bad(op.name, "the verdict of the forward solve is not returned")


def inverse(op, e, W, qinv, n, what="the column of each pivot"):
    """W[qinv[j]] = j for every pivotal column j"""
    if isinstance(e, Store) or e[0] != "loop":
        raise Bad(op.name, "%s is not tabulated by a loop" % what)
    j = op.counter(e[1], e[2], C(0), n, "the columns")
    i = at(qinv, j)
    for s in op.T.bodies(e[1]):
        st = s.stores()
        if not st:
            if not (implied(("lt0", i), s.facts) or implied(("eq0", add(i, C(1))), s.facts)):
                raise Bad(loc(s), "a pivotal column may be skipped")
            continue
        if len(st) != 1 or st[0].addr != el(W, i) or st[0].val != j:
            raise Bad(loc(st[0]), "%s is not recorded" % what)
        if not (implied(nonneg(i), s.facts) or implied(("ne0", add(i, C(1))), s.facts)):
            raise Bad(loc(st[0]), "a column without pivot is recorded")


def gesv(op, m):
    F, B, okp = [arg(k) for k in range(3)]
    Lm = fld(F, 2, LU)
    n, mm, Xm = fld(B, 1), fld(B, 2), fld(Lm, 1)
    for p in op.paths():
        al = p.calls("spasm_triplet_alloc")
        if len(al) != 1 or al[0][2][0] != n or al[0][2][1] != Xm or al[0][2][4] != C(1):
            raise Bad(al[0][3].loc if al else op.name, "the solution does not have one row per right-hand side and one column per row of the matrix")
        X = ("call", "spasm_triplet_alloc", al[0][3])
        cp = p.calls("spasm_compress")
        if len(cp) != 1 or cp[0][2] != (X,) or p.ret != ("call", "spasm_compress", cp[0][3]):
            raise Bad(op.name, "the compressed solution is not returned")
        arrays = {fld(X, k, TRI) for k in (4, 5, 6)} | {X}
        ls = [e for e in p.loops() if op.reach(e[1]) & arrays]
        if not ls and op.empty(p, C(0), n):
            continue
        if len(ls) != 1 or p.events.index(ls[0]) > p.events.index(cp[0]):
            raise Bad(op.name, "not exactly one loop over the right-hand sides before the solution is compressed")
        e = ls[0]
        i = op.counter(e[1], e[2], C(0), n, "the right-hand sides")
        for q in op.T.bodies(e[1]):
            sv = q.calls("spasm_solve")
            if len(sv) != 1 or sv[0][2][0] != F:
                raise Bad(loc(q), "a right-hand side is not solved exactly once")
            b, x = sv[0][2][1:3]
            c = ("call", "spasm_solve", sv[0][3])
            ev = op.rel(q, {b})
            if len(ev) != 3 or ev[2] is not sv[0] or not op.filled(ev[0], b, mm, 0):
                raise Bad(sv[0][3].loc, "the right-hand side is not cleared, filled with row i and solved")
            op.row_add(ev[1], B, i, (C(1),), b, q.facts)
            st = [s for s in q.stores() if s.base == okp]
            if m.null[okp]:
                if st:
                    raise Bad(loc(st[0]), "the verdict is written although no table was given")
            else:
                if len(st) != 1 or st[0].addr != el(okp, i) or not (st[0].val in (c, ("ne0", c)) or st[0].val == C(1) and
                   implied(("ne0", c), q.facts) or st[0].val == C(0) and implied(("eq0", c), q.facts)):
                    raise Bad(loc(st[0]) if st else loc(q), "the verdict of each right-hand side is not recorded in ok[i]")
            if op.rel(q, {x}) != [sv[0]]:
                raise Bad(loc(q), "the solution vector is changed")
            en = [f for f in q.loops() if op.reach(f[1]) & arrays]
            if len(en) != 1 or q.events.index(en[0]) < q.events.index(sv[0]):
                raise Bad(loc(q), "the solution is not stored by one loop after the solve")
            j = op.counter(en[0][1], en[0][2], C(0), Xm, "the coefficients of the solution")
            v = at(x, j)
            for s in op.T.bodies(en[0][1]):
                triplet_append(op, s, X, (i, j, v), [("ne0", v)], "coefficient of the solution")


def triplet_append(op, s, X, ijx, conds, what):
    """the trip appends the entry to X exactly when the conditions hold"""
    nz = fld(X, 1, TRI)
    w = {fld(X, k, TRI) for k in (4, 5, 6)}
    st = [e for e in s.stores() if e.base in w or e.addr[0] == "fld" and e.addr[1] == X]
    ad = s.calls("spasm_add_entry")
    if not st and not ad:
        if not any(implied(neg_cond(c), s.facts) for c in conds):
            raise Bad(loc(s), "%s: an entry may be left out" % what)
        return
    if ad:
        if st or len(ad) != 1 or ad[0][2] != (X,) + ijx:
            raise Bad(loc(s), "%s: not (%s)" % (what, ", ".join(map(show, ijx))))
    else:
        got = {e.addr: e for e in st}
        want = {("fld", X, TRI, 1): add(nz, C(1))}
        for k, t in zip((4, 5, 6), ijx):
            want[el(fld(X, k, TRI), nz)] = t
        for a, t in want.items():
            if a not in got:
                raise Bad(loc(s), "%s: %s is not written" % (what, show(a)))
            if got[a].val != t:
                raise Bad(loc(got[a]), "%s: %s receives %s, not %s" % (what, show(a), show(got[a].val), show(t)))
        for a in got:
            if a not in want:
                raise Bad(loc(got[a]), "%s: unexpected write to %s" % (what, show(a)))
    for c in conds:
        if not implied(c, s.facts):
            raise Bad(loc(s), "%s: stored although %s is not known to hold" % (what, show(c)))


# -- rows appended to a growing matrix ---------------------------------------
class Stream:
    """what one row appends: entries before the loop, then, for px in lo..hi-1 with all conds, the columns written"""

    def __init__(self, arrays, conds, vals, pre=(), name="entry", start=C(0)):
        self.arrays, self.conds, self.vals, self.pre, self.name, self.start = arrays, conds, vals, pre, name, start


def position(op, q, L, E, s):
    """the header counter of entry loop E through which the stream is written; its start in the row"""
    hits = set()
    for t in op.T.bodies(E[1]):
        for e in t.stores():
            if e.base in s.arrays:
                i = el_split(e.addr)[1]
                if i[0] == "phi" and i[1] in E[1].header.phis:
                    hits.add(i[1])
                else:
                    raise Bad(loc(e), "%s: not written at the running position" % s.name)
    if len(hits) != 1:
        raise Bad(loc(E[1]), "%s: never written" % s.name if not hits else "%s: several positions" % s.name)
    return hits.pop()


def counted(op, q, E, ph, start, lo, hi, conds):
    """terms equal to the position after the loop over the entries, at the end of trip q"""
    out = {("phi", ph)}
    for e in q.loops():
        if e is E:
            continue
        r = op.T.counter(e[1], e[2], lo, hi)
        if r is None:
            continue
        for c in e[1].header.phis:
            d0 = e[2].get(c)
            if d0 is None or not c.type.startswith("i"):
                continue
            ok = True
            for s in op.T.bodies(e[1]):
                w = s.next.get(c)
                cs = conds(r)
                inc = add(w, ("phi", c), -1) if w is not None else None
                if inc is not None and inc[0] == "sel" and inc[2:] == (C(1), C(0)):
                    inc = inc[1]
                if inc is not None and inc[0] in ("eq0", "ne0", "lt0", "and", "or", "not"):
                    rest = [x for x in cs if not implied(x, s.facts)]
                    if any(implied(neg_cond(x), s.facts) for x in cs) or not rest:
                        ok = False
                    else:
                        ok = ok and equivalent(inc, rest[0] if len(rest) == 1 else ("and",) + tuple(rest))
                elif w == add(("phi", c), C(1)):
                    ok = ok and all(implied(x, s.facts) for x in cs)
                elif w == ("phi", c):
                    ok = ok and any(implied(neg_cond(x), s.facts) for x in cs)
                else:
                    ok = False
                if s.stores() or s.loops():
                    ok = False
            if ok:
                # ("phi", c) - d0 entries
                out.add(add(start, add(("phi", c), d0, -1)))
    return out


def entries(op, q, E, lo, hi, streams):
    """the trips of the entry loop append exactly what the streams say"""
    px = op.counter(E[1], E[2], lo, hi, "the entries")
    every = set().union(*[s.arrays for s in streams])
    for t in op.T.bodies(E[1]):
        for s in streams:
            D = ("phi", s.ph)
            cs = s.conds(px)
            w = t.next.get(s.ph)
            st = {e.addr: e for e in t.stores() if e.base in s.arrays}
            if w == add(D, C(1)):
                for c in cs:
                    if not implied(c, t.facts + q.facts):
                        raise Bad(loc(t), "%s: kept although %s is not known to hold" % (s.name, show(c)))
                want = {el(b, D): v for b, v in s.vals(px).items()}
                for a, v in want.items():
                    if a not in st:
                        raise Bad(loc(t), "%s: %s is not written" % (s.name, show(a)))
                    if st[a].val != v:
                        raise Bad(loc(st[a]), "%s: %s receives %s, not %s" % (s.name, show(a), show(st[a].val), show(v)))
                for a in st:
                    if a not in want:
                        raise Bad(loc(st[a]), "%s: unexpected write to %s" % (s.name, show(a)))
            elif w == D:
                if not any(implied(neg_cond(c), t.facts + q.facts) for c in cs):
                    raise Bad(loc(t), "%s: may be left out" % s.name)
                if st:
                    raise Bad(loc(t), "%s: written without being counted" % s.name)
            else:
                raise Bad(loc(t), "%s: the position advances by something else than one per entry kept" % s.name)
        for e in t.stores():
            if e.base not in every:
                raise Bad(loc(e), "unexpected write to %s" % show(e.addr))


def same_start(op, p, e, v, w):
    """v is w, or a later reading of the same unchanged cell"""
    if v == w:
        return True
    return v is not None and v[0] == "ldv" and w == ("ld", v[1]) and v[1][0] == "fld" and all(
        s.addr != v[1] for s in p.events[:p.events.index(e)] if isinstance(s, Store))


def fresh_row(op, p, e, R, body, others=()):
    """loop event e of path p builds R row by row; body(q) -> None when no row is due on that trip, else (lo, hi, streams,
    exact) where streams[0] are the entries of R"""
    Rp, Rj, Rx = fld(R, 3), fld(R, 4), fld(R, 5)
    L, init = e[1], e[2]
    rowno = nnz = None
    for q in op.T.bodies(L):
        spec = body(q)
        if spec is None:
            for s in op.rel(q, {Rp, Rj, Rx}):
                raise Bad(loc(s) if isinstance(s, Store) else loc(q), "the result is written although no row is due")
            continue
        lo, hi, streams = spec
        S0 = streams[0]
        en = [f for f in q.loops() if op.reach(f[1]) & {Rj, Rx}]
        if not en and any(isinstance(s, Store) for s in op.rel(q, {Rp})) and op.empty(q, lo, hi):
            continue
        if len(en) != 1:
            raise Bad(loc(q), "the entries of a row are not written by exactly one loop")
        E = en[0]
        for s in streams:
            own = [f for f in q.loops() if op.reach(f[1]) & s.arrays]
            if len(own) > 1:
                raise Bad(loc(q), "%s: written by several loops" % s.name)
            s.loop = own[0] if own and s is not S0 else E
            s.ph = position(op, q, L, s.loop, s)
        D0 = E[2][S0.ph]
        pre = len(S0.pre)
        base = add(D0, C(-pre))
        if base[0] != "phi" or base[1].block is not L.header:
            raise Bad(loc(E[1]), "the entries of a row do not start where the previous row ends")
        if nnz not in (None, base[1]):
            raise Bad(loc(E[1]), "two different running positions")
        nnz = base[1]
        if init.get(nnz) != C(0):
            raise Bad(loc(L), "the first row does not start at position 0")
        for s in streams[1:]:
            d = s.loop[2][s.ph]
            if d[0] != "phi" or d[1].block is not L.header or not same_start(op, p, e, init.get(d[1]), s.start):
                raise Bad(loc(E[1]), "%s: not written after those already there" % s.name)
            if q.next.get(d[1]) not in counted(op, q, s.loop, s.ph, d, lo, hi, s.conds):
                raise Bad(loc(q), "%s: the running position does not end up after the entries of the row" % s.name)
            s.outer = d
        want = {}
        for k, vals in enumerate(S0.pre):
            for b, v in vals.items():
                want[el(b, add(base, C(k)))] = v
        cells = op.last(q)
        rp = [s for a, s in cells.items() if s.base == Rp]
        for a, v in want.items():
            if a not in cells:
                raise Bad(loc(q), "%s is not written" % show(a))
            if cells[a].val != v:
                raise Bad(loc(cells[a]), "%s receives %s, not %s" % (show(a), show(cells[a].val), show(v)))
        for a, s in cells.items():
            if s.base in (Rj, Rx) and a not in want:
                raise Bad(loc(s), "unexpected write to %s" % show(a))
        for f in q.loops():
            mine = [s for s in streams if s.loop is f]
            if mine:
                entries(op, q, f, lo, hi, mine)
        ends = counted(op, q, E, S0.ph, D0, lo, hi, S0.conds)
        if len(rp) != 1 or rp[0].val not in ends:
            raise Bad(loc(rp[0]) if rp else loc(q), "the next row pointer is not set to the end of the entries of the row")
        k = add(el_split(rp[0].addr)[1], C(-1))
        if q.next.get(nnz) not in ends:
            raise Bad(loc(q), "the running position does not end up after the entries of the row")
        # the row number
        if k[0] == "phi" and k[1].block is L.header:
            if init.get(k[1]) != C(0) or q.next.get(k[1]) != add(k, C(1)):
                raise Bad(loc(rp[0]), "the rows are not numbered 0, 1, 2...")
        elif k == fld(R, 1):
            c = cells.get(("fld", R, CSR, 1))
            z = op.last(p, p.events[:p.events.index(e)]).get(("fld", R, CSR, 1))
            if c is None or c.val != add(k, C(1)) or z is None or z.val != C(0):
                raise Bad(loc(rp[0]), "the rows are not numbered 0, 1, 2...")
        else:
            raise Bad(loc(rp[0]), "the rows are not numbered 0, 1, 2...")
        if rowno not in (None, k):
            raise Bad(loc(rp[0]), "two different row counters")
        rowno = k
    for q in op.T.bodies(L):
        if body(q) is None:
            for t in (rowno, ("phi", nnz) if nnz else None):
                if t is not None and t[0] == "phi" and q.next.get(t[1]) != t:
                    raise Bad(loc(q), "the position or the row number changes on a trip without row")
            if rowno == fld(R, 1) and ("fld", R, CSR, 1) in op.last(q):
                raise Bad(loc(q), "the row number changes on a trip without row")
    return rowno


def the_alloc(op, p, n, m):
    cs = p.calls("spasm_csr_alloc")
    if len(cs) != 1:
        raise Bad(op.name, "%d matrices are allocated, 1 expected" % len(cs))
    a = cs[0][2]
    if a[0] != n or a[1] != m or a[4] == C(0):
        raise Bad(cs[0][3].loc, "the result is %s x %s%s, not %s x %s with coefficients" % (
            show(a[0]), show(a[1]), " without coefficients" if a[4] == C(0) else "", show(n), show(m)))
    return ("call", "spasm_csr_alloc", cs[0][3])


def same_until(op, q, c, E, arrays):
    """nothing writes the arrays between the solve and the entry loop"""
    k, l = q.events.index(c), q.events.index(E)
    for e in op.rel(q, arrays):
        if k < q.events.index(e) < l and e is not c:
            return e
    return None


def builder(op, p, R, n, what):
    arrays = {fld(R, 4), fld(R, 5)}
    ls = [e for e in p.loops() if op.reach(e[1]) & arrays]
    if not ls and op.empty(p, C(0), n):
        return None
    if len(ls) != 1:
        raise Bad(op.name, "not exactly one loop builds the %s" % what)
    return ls[0]


def solved(op, q, U, B, k, table):
    """the sparse solve of the trip: (call, top, xj, x)"""
    c = q.calls("spasm_sparse_triangular_solve")
    if len(c) != 1:
        raise Bad(loc(q), "a row is not computed by exactly one sparse triangular solve")
    a = c[0][2]
    for got, w, nm in ((a[0], U, "matrix"), (a[1], B, "right-hand side"), (a[2], k, "row"), (a[5], table, "pivot table")):
        if w is not None and got != w:
            raise Bad(c[0][3].loc, "the %s of the solve is %s, not %s" % (nm, show(got), show(w)))
    return c[0], ("call", c[0][1], c[0][3]), a[3], a[4]


def kernel(op, m):
    F = arg(0)
    U, qinv = fld(F, 3, LU), fld(F, 4, LU)
    n, mm = fld(U, 1), fld(U, 2)
    for p in op.paths():
        tr = p.calls("spasm_transpose")
        if len(tr) != 1 or tr[0][2][0] != U or tr[0][2][1] == C(0):
            raise Bad(op.name, "U is not transposed, with its coefficients")
        Ut = ("call", "spasm_transpose", tr[0][3])
        K = the_alloc(op, p, add(mm, n, -1), mm)
        if p.ret != K:
            raise Bad(op.name, "the basis is not returned")
        e = builder(op, p, K, mm, "kernel")
        if e is None:
            continue
        j = op.counter(e[1], e[2], C(0), mm, "the columns")
        tab = {}

        def body(q):
            if not q.calls("spasm_sparse_triangular_solve"):
                if not implied(nonneg(at(qinv, j)), q.facts):
                    raise Bad(loc(q), "a column without pivot may be skipped")
                return None
            if not implied(("lt0", at(qinv, j)), q.facts):
                raise Bad(loc(q), "a kernel row is built for a column that may be pivotal")
            c, top, xj, x = solved(op, q, Ut, Ut, j, None)
            W = c[2][5]
            tab[W] = c
            E = [f for f in q.loops() if op.reach(f[1]) & {fld(K, 4)}]
            for f in E:
                w = same_until(op, q, c, f, {xj, x, W})
                if w is not None:
                    raise Bad(loc(w) if isinstance(w, Store) else loc(q), "the solution is changed before it is copied")
            Kj, Kx = fld(K, 4), fld(K, 5)
            s = Stream({Kj, Kx}, lambda px: [("ne0", at(x, at(xj, px)))],
                       lambda px: {Kj: at(W, at(xj, px)), Kx: at(x, at(xj, px))}, [{Kj: j, Kx: C(-1)}], "kernel entry")
            return top, n, [s]
        fresh_row(op, p, e, K, body)
        if len(tab) != 1:
            raise Bad(loc(e[1]), "not exactly one table locates the pivots in the transpose")
        W = next(iter(tab))
        ev = op.rel(p, {W})
        if len(ev) != 2 or ev[1] is not e:
            raise Bad(op.name, "the table locating the pivots in the transpose is not filled once, before it is used")
        inverse(op, ev[0], W, qinv, mm)


def kernel_rref(op, m):
    R, qinv = arg(0), arg(1)
    n, mm = fld(R, 1), fld(R, 2)
    for p in op.paths():
        tr = p.calls("spasm_transpose")
        if len(tr) != 1 or tr[0][2][0] != R or tr[0][2][1] == C(0):
            raise Bad(op.name, "the matrix is not transposed, with its coefficients")
        Rt = ("call", "spasm_transpose", tr[0][3])
        K = the_alloc(op, p, add(mm, n, -1), mm)
        if p.ret != K:
            raise Bad(op.name, "the basis is not returned")
        e = builder(op, p, K, mm, "kernel")
        if e is None:
            continue
        j = op.counter(e[1], e[2], C(0), mm, "the columns")
        tabs = set()
        for q in op.T.bodies(e[1]):
            for f in q.loops():
                for t in op.T.bodies(f[1]):
                    for s in t.stores():
                        if s.base == fld(K, 4):
                            v = s.val
                            if v[0] == "ld" and el_split(v[1])[0][0] == "call" and el_split(v[1])[1][0] == "ld":
                                tabs.add(el_split(v[1])[0])
        if len(tabs) > 1:
            raise Bad(loc(e[1]), "not decided: several tables of pivot columns")
        P = tabs.pop() if tabs else None

        def body(q):
            if not q.loops():
                if not implied(nonneg(at(qinv, j)), q.facts):
                    raise Bad(loc(q), "a column without pivot may be skipped")
                return None
            if not implied(("lt0", at(qinv, j)), q.facts):
                raise Bad(loc(q), "a kernel row is built for a column that may be pivotal")
            Kj, Kx = fld(K, 4), fld(K, 5)

            def col(px):
                i = at(fld(Rt, 4), px)
                return at(P, i) if P is not None else at(fld(R, 4), at(fld(R, 3), i))
            s = Stream({Kj, Kx}, lambda px: [], lambda px: {Kj: col(px), Kx: at(fld(Rt, 5), px)},
                       [{Kj: j, Kx: C(-1)}], "kernel entry")
            return at(fld(Rt, 3), j), at(fld(Rt, 3), add(j, C(1))), [s]
        fresh_row(op, p, e, K, body)
        if P is not None:
            ev = op.rel(p, {P})
            if len(ev) != 1 or isinstance(ev[0], Store) or p.events.index(ev[0]) > p.events.index(e):
                raise Bad(op.name, "the table of pivot columns is not filled once, before it is used")
            i = op.counter(ev[0][1], ev[0][2], C(0), n, "the rows")
            for s in op.T.bodies(ev[0][1]):
                if [(t.addr, t.val) for t in s.stores()] != [(el(P, i), at(fld(R, 4), at(fld(R, 3), i)))]:
                    raise Bad(loc(s), "the pivot column of a row is not its first entry")


def rref(op, m):
    F, Rq = arg(0), arg(1)
    U, qinv = fld(F, 3, LU), fld(F, 4, LU)
    n, mm = fld(U, 1), fld(U, 2)
    for p in op.paths():
        R = the_alloc(op, p, n, mm)
        if p.ret != R:
            raise Bad(op.name, "the reduced form is not returned")
        e = builder(op, p, R, n, "reduced form")
        if e is None:
            continue
        i = op.counter(e[1], e[2], C(0), n, "the rows")
        piv = at(fld(U, 4), at(fld(U, 3), i))
        tab = {}

        def body(q):
            c, top, xj, x = solved(op, q, U, U, i, None)
            W = c[2][5]
            tab[W] = c
            k = q.events.index(c)
            before = op.last(q, q.events[:k])
            if el(W, piv) not in before or before[el(W, piv)].val != C(-1) or [
                    a for a in before if a != el(W, piv) and before[a].base == W]:
                raise Bad(c[3].loc, "the pivot column of the row itself is not left out of the elimination")
            E = [f for f in q.loops() if op.reach(f[1]) & {fld(R, 4)}]
            if len(E) == 1:
                w = same_until(op, q, c, E[0], {x, W})
                if w is not None:
                    raise Bad(loc(w) if isinstance(w, Store) else loc(q), "the row is changed before it is copied")
                pivot_first(op, q, c, E[0], xj, top, mm, piv)
            Rj, Rx = fld(R, 4), fld(R, 5)

            def conds(px):
                j = at(xj, px)
                return [("lt0", at(W, j)), ("ne0", at(x, j))]
            s = Stream({Rj, Rx}, conds, lambda px: {Rj: at(xj, px), Rx: at(x, at(xj, px))}, [], "entry of the row")
            return top, mm, [s]
        fresh_row(op, p, e, R, body)
        if len(tab) != 1:
            raise Bad(loc(e[1]), "not exactly one private pivot table")
        W = next(iter(tab))
        ev = op.rel(p, {W})
        if len(ev) != 2 or ev[1] is not e or not op.copied(ev[0], W, qinv, mm):
            raise Bad(op.name, "the private pivot table is not a copy of the pivot table of U")
        for q in op.T.bodies(e[1]):
            s = op.last(q).get(el(W, piv))
            if s is None or s.val not in (i, ("ld", el(W, piv)), at(qinv, piv)):
                raise Bad(loc(s) if s else loc(q), "the private pivot table is not restored")
        ev = op.rel(p, {Rq})
        if len(ev) != 2 or not op.filled(ev[0], Rq, mm, -1):
            raise Bad(op.name, "the pivot table of the result is not set to -1 for every column, then filled")
        f = ev[1]
        if isinstance(f, Store) or f[0] != "loop" or p.events.index(f) < p.events.index(e):
            raise Bad(op.name, "the pivots of the result are not located by a loop over the finished rows")
        k = op.counter(f[1], f[2], C(0), n, "the rows")
        for s in op.T.bodies(f[1]):
            if [(t.addr, t.val) for t in s.stores()] != [(el(Rq, at(fld(R, 4), at(fld(R, 3), k))), k)]:
                raise Bad(loc(s), "the column of the first entry of each row is not registered as its pivot")


def pivot_first(op, q, c, E, xj, top, m, piv):
    """the pivot column is brought to the front of the pattern, by an exchange"""
    k, l = q.events.index(c), q.events.index(E)
    seg = q.events[k + 1:l]
    st = [s for s in seg if isinstance(s, Store) and s.base == xj]
    front = el(xj, top)
    search = []
    for f in seg:
        if isinstance(f, Store) or f[0] != "loop":
            continue
        if xj in op.reach(f[1]):
            raise Bad(loc(f[1]), "not decided: the pattern is reordered in a loop")
        for r in nest.loop_ranges(op.S, f[1]):
            if r.term == ("phi", r.phi) and r.step == 1 and f[2].get(r.phi) in (top, add(top, C(1))) and op.T.norm(r.hi) == m:
                search.append((f, r))
    for f in seg:
        if isinstance(f, Store) or f[0] != "loop" or any(f is x for x, _ in search):
            continue
        for ph in f[1].header.phis:                # a search without bound: it ends only at the pivot, wherever it is
            if f[2].get(ph) == top and all(s.end is f[1].header and s.next.get(ph) == add(("phi", ph), C(1)) or
                                           implied(("eq0", add(at(xj, ("phi", ph)), piv, -1)), s.facts)
                                           for s in op.T.trips(f[1])):
                got = {s.addr: s.val for s in st}
                a = el(xj, ("phi", ph))
                fr = {("ld", front)} | {v for v in got.values() if v[0] == "ldv" and v[1] == front}
                if set(got) == {a, front} and got[a] in fr and (
                        got[front] in (piv, ("ld", a)) or got[front][0] == "ldv" and got[front][1] == a):
                    return
                raise Bad(loc(st[0]) if st else loc(q), "the pivot is not exchanged with the front of the pattern")
    for f, r in search:
        here = [s for s in op.T.left(f[1], f[3]) if not any(contradicts(x, y) for x in s.facts for y in q.facts)]
        hit = ("eq0", add(at(xj, r.term), piv, -1))
        if here and all(implied(hit, s.facts) for s in here):
            got = {s.addr: s.val for s in st}
            fr = {("ld", front)} | {v for v in got.values() if v[0] == "ldv" and v[1] == front}
            a = el(xj, r.term)
            if set(got) != {a, front} or got[a] not in fr or not (
                    got[front] in (piv, ("ld", a)) or got[front][0] == "ldv" and got[front][1] == a):
                raise Bad(loc(st[0]) if st else loc(q), "the pivot is not exchanged with the front of the pattern")
            return
        if here and all(implied(nonneg(add(r.term, m, -1)), s.facts) for s in here):
            if st:
                raise Bad(loc(st[0]), "the pattern is changed although the pivot was not found")
            return
    raise Bad(c[3].loc, "the pivot is not searched in the whole pattern and brought to the front")


class Check28(Checker):
    def __init__(self, rep, M):
        Checker.__init__(self, rep, M)

    def run(self, rule, name, modes, f):
        import p27
        old = p27.Op
        p27.Op = Asm
        try:
            Checker.run(self, rule, name, modes, f)
        finally:
            p27.Op = old


def check(b, rep):
    rep.expl = ("Loop-nest extraction by path-wise symbolic execution of the IR of the sequential reading of the library "
                "(helpers inlined; OpenMP pragmas ignored, the parallel aspects being P04, P05, P18), with and without "
                "permutations, matched against the formula of each operation: ranges, direction, factors, conditions, "
                "places and row pointers.")
    for r, t in (("triangular", "each column (row) processed once, in the right order, divided by its diagonal / eliminated by its own row"),
                 ("solve", "x = (b / U) / L with the pivots of U and of L; each right-hand side solved, its verdict and its non-zeros recorded"),
                 ("kernel", "one row per column without pivot: -1 on that column and the solution on the pivotal columns"),
                 ("reduced", "row i = row i of U with the other pivots eliminated, pivot first; pivots registered")):
        rep.rule(r, t)
    M = b.lib(omp=False)
    ck = Check28(rep, M)
    ck.run("triangular", "spasm_dense_back_solve", modes([arg(3)]), back_solve)
    ck.run("triangular", "spasm_dense_forward_solve", modes([arg(3)]), forward_solve)
    ck.run("triangular", "spasm_sparse_triangular_solve", modes(), sparse_solve)
    ck.run("solve", "spasm_solve", modes(), solve)
    ck.run("solve", "spasm_gesv", modes([arg(2)]), gesv)
    ck.run("kernel", "spasm_kernel", modes(), kernel)
    ck.run("kernel", "spasm_kernel_from_rref", modes(), kernel_rref)
    ck.run("reduced", "spasm_rref", modes(), rref)
    rep.assumptions.append("distinct array arguments of one call do not overlap; read-only inputs are not changed (P01)")


if __name__ == "__main__":
    sys.exit(run("P28", check))
