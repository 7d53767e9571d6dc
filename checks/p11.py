"""P11: field operations return the exact balanced residue, for every modulus.

Exact symbolic evaluation of each path of each operation: integers are polynomials over the operands, the modulus p, h = floor(p/2)
and truncated quotients; floating-point values carry their exact real expression and a bound on the rounding error (both as functions
of p). A returned value must be congruent to the exact result modulo p and lie in [h - p + 1, h], for every modulus accepted by
spasm_field_init."""
from common import *
from fractions import Fraction as Q
import linear as ln
from linear import add as ladd, scale as lscale, const as lconst, atom as latom
import cfg
from api import API

FIELD = "%struct.spasm_field_struct"
EPS = {"double": Q(1, 1 << 53), "float": Q(1, 1 << 24)}
OPS = {"spasm_ZZp_init": lambda a: {(a[0],): 1},
       "spasm_ZZp_add": lambda a: {(a[0],): 1, (a[1],): 1},
       "spasm_ZZp_sub": lambda a: {(a[0],): 1, (a[1],): -1},
       "spasm_ZZp_mul": lambda a: {tuple(sorted((a[0], a[1]))): 1},
       "spasm_ZZp_axpy": lambda a: {tuple(sorted((a[0], a[1]))): 1, (a[2],): 1}}


class Skip(Exception):
    """not in a form the evaluation follows"""


class Flaw(Exception):
    def __init__(self, i, key, msg):
        self.i, self.key, self.msg = i, key, msg


# ---- polynomials: {tuple of sorted atoms: coefficient}; the exponent of p may be negative in real expressions: atoms "p" and "1/p"
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + k * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            t = sorted(m + n)
            while "p" in t and "1/p" in t:
                t.remove("p")
                t.remove("1/p")
            t = tuple(t)
            v = r.get(t, 0) + c * d
            if v:
                r[t] = v
            else:
                r.pop(t, None)
    return r


def pc(c):
    return {(): c} if c else {}


def pa(a):
    return {(a,): 1}


def isc(p):
    return not p or (len(p) == 1 and () in p)


# ---- magnitudes: {exponent of p: coefficient >= 0}, an upper bound of the absolute value as a function of p
def madd(a, b):
    r = dict(a)
    for e, c in b.items():
        r[e] = r.get(e, 0) + c
    return r


def mmul(a, b):
    r = {}
    for e, c in a.items():
        for f, d in b.items():
            r[e + f] = r.get(e + f, 0) + c * d
    return r


def meval(m, lo, hi):
    """largest value for lo <= p <= hi"""
    return sum((c * (Q(hi) ** e if e > 0 else Q(lo) ** e) for e, c in m.items()), Q(0))


class Val:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


def I(poly):
    return Val("i", p=poly)


class State:
    def __init__(self):
        self.env, self.mem, self.facts = {}, {}, []

    def copy(self):
        s = State()
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), list(self.facts)
        return s


class Eval:
    def __init__(self, M, fn, params, world):
        self.M, self.fn, self.params = M, fn, params
        self.mag = dict(world["mag"])       # atom -> magnitude
        self.lo, self.hi = world["range"]
        self.field = world["field"]         # field number -> Val, None while evaluating field_init
        self.alias = {}                     # atom -> polynomial it is congruent to mod p
        self.n = 0
        self.rets = []
        self.steps = 0

    def fresh(self, name, mag):
        self.n += 1
        a = "%s#%d" % (name, self.n)
        self.mag[a] = mag
        return a

    # ---- bounds
    def magnitude(self, p):
        r = {}
        for m, c in p.items():
            t = {0: abs(Q(c))}
            for x in m:
                t = mmul(t, {1: Q(1)} if x == "p" else {-1: Q(1)} if x == "1/p" else self.mag[x])
            r = madd(r, t)
        return r

    def expand(self, p):
        """truncated quotients replaced by their real value plus a bounded remainder"""
        out = {}
        for m, c in p.items():
            t = {(): c}
            for x in m:
                f = self.quot.get(x) if hasattr(self, "quot") else None
                t = pmul(t, padd(f[0], pa(f[1])) if f else pa(x))
            out = padd(out, t)
        return out

    def most(self, p):
        return meval(self.magnitude(self.expand(p)), self.lo, self.hi)

    def fits(self, p, w):
        """does the value fit in a signed w-bit integer?"""
        return self.most(p) < (1 << (w - 1))

    def within(self, p, forms):
        """the forms (affine in p, h) proved to bound |p|, tried in order"""
        m = self.magnitude(self.expand(p))
        for name, ok, form in forms:
            lo = self.lo
            good = True
            while lo <= self.hi and good:
                hi = min(2 * lo - 1, self.hi)
                good = ok(m, lo, hi)
                lo = hi + 1
            if good:
                return form
        return None

    def lin(self, st, p):
        """affine form; the nonlinear part becomes one atom with the bounds that can be shown for the whole value"""
        L, N = {}, {}
        for m, c in p.items():
            if len(m) <= 1:
                L[m[0] if m else 1] = c
            else:
                N[m] = c
        if not N:
            return L
        lead = sorted(N)[0]
        s = N[lead]
        if abs(s) != 1:
            s = 1
        N = {m: c * s for m, c in N.items()}
        a = ("poly", frozenset(N.items()))
        f = ladd(L, latom(a), s)
        k = ("seen", ln.key(f))
        if k not in st.mem:
            st.mem[k] = True
            P, h = latom("p"), latom("h")

            def beyond(m, x, lo, hi):             # integer part of what exceeds x * p
                d = {e: c for e, c in m.items() if e != 1}
                k = m.get(1, 0) - x
                d[1] = max(k, 0)
                return (meval(d, lo, hi) + min(k, 0) * lo) // 1
            forms = [("p", lambda m, lo, hi: beyond(m, 1, lo, hi) <= 0, P),
                     ("2p-h-1", lambda m, lo, hi: beyond(m, 1, lo, hi) <= (lo + 1) // 2 - 1, ladd(ladd(lscale(P, 2), h, -1), lconst(-1))),
                     ("2p", lambda m, lo, hi: beyond(m, 2, lo, hi) <= 0, lscale(P, 2))]
            b = self.within(p, forms)
            if b is not None:
                st.facts += [ladd(b, f, -1), ladd(b, f)]
        return f

    def proves(self, st, f):
        return ln.prove(st.facts, f)

    # ---- execution
    def run(self, st):
        work = [(self.fn.blocks[0], None, st)]
        while work:
            b, frm, st = work.pop()
            self.steps += 1
            if self.steps > 4000:
                raise Skip("too many paths")
            new = {}
            for ph in b.phis:
                for v, pb in ph.incoming:
                    if pb is frm:
                        new[ph] = self.val(st, v)
            st.env.update(new)
            L = next((L for L in cfg.loops(self.fn) if L.header is b), None)
            if L is not None:
                if frm in L.blocks:
                    continue
                for x, s2 in self.loop(L, b, st):
                    work.append((x, b, s2))
                continue
            states = [st]
            for i in b.insts:
                if i.op == "phi" or i is b.term:
                    continue
                states = [s for x in states for s in self.inst(x, i)]
            t = b.term
            for s in states:
                if t.op == "ret":
                    self.rets.append((s, t, self.val(s, t.ops[0]) if t.ops else None))
                elif t.op == "br":
                    if len(b.succs) == 1:
                        work.append((b.succs[0], b, s))
                        continue
                    c = self.val(s, t.ops[0])
                    for truth, x in zip((True, False), t.targets):
                        for s2 in self.assume(s.copy(), c, truth):
                            work.append((x, b, s2))
                elif t.op == "switch":
                    raise Skip("switch")

    def loop(self, L, h, st):
        raise Skip("loop")

    def val(self, st, v):
        if v.kind == "int":
            return Val("c", v=bool(v.val & 1)) if v.type == "i1" else I(pc(v.val))
        if v.kind == "fp":
            try:
                x = float(v.val)
            except (TypeError, ValueError, AttributeError):
                raise Skip("constant")
            return Val("f", e=pc(Q(x)), err={}, m={0: abs(Q(x))})
        r = st.env.get(v)
        if r is None:
            raise Skip("operand")
        return r

    def assume(self, st, c, truth):
        k = c.kind
        if k == "c":
            return [st] if c.v == truth else []
        if k == "not":
            return self.assume(st, c.a, not truth)
        if k in ("and", "or"):
            if (k == "and") == truth:
                return [s2 for s in self.assume(st, c.a, truth) for s2 in self.assume(s, c.b, truth)]
            return self.assume(st.copy(), c.a, truth) + [s2 for s in self.assume(st.copy(), c.a, not truth)
                                                         for s2 in self.assume(s, c.b, truth)]
        if k != "cmp":
            raise Skip("condition")
        pred = c.pred
        if not truth:
            pred = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[pred]
        d = ladd(self.lin(st, c.a), self.lin(st, c.b), -1)
        neg = lscale(d, -1)
        one = lconst(-1)
        new = {"slt": [[ladd(neg, one)]], "sle": [[neg]], "sgt": [[ladd(d, one)]], "sge": [[d]],
               "eq": [[d, neg]], "ne": [[ladd(d, one)], [ladd(neg, one)]]}[pred]
        out = []
        for fs in new:
            s = st.copy()
            s.facts += fs
            if not ln.infeasible(s.facts):
                out.append(s)
        return out

    def ints(self, st, i, n=2):
        r = [self.val(st, o) for o in i.ops[:n]]
        if any(x.kind != "i" for x in r):
            raise Skip(i.op)
        return [x.p for x in r]

    def keep(self, i, p, w):
        if not self.fits(p, w):
            raise Flaw(i, "overflow", "the %d-bit %s may overflow: its operands reach %.3g in absolute value" %
                       (w, {"add": "sum", "sub": "difference", "mul": "product"}.get(i.op, i.op), float(self.most(p))))
        return I(p)

    def inst(self, st, i):
        op, e = i.op, st.env
        w = int(i.type[1:]) if i.type[:1] == "i" and i.type[1:].isdigit() else 0
        if op == "gep":
            if i.srctype == FIELD and len(i.ops) == 3 and i.ops[2].kind == "int" and self.val(st, i.ops[0]).kind == "F":
                e[i] = Val("fp*", k=i.ops[2].val)
                return [st]
            raise Skip("address")
        if op in ("load", "store"):
            a = self.val(st, i.ops[0 if op == "load" else 1])
            k = 0 if a.kind == "F" else a.k if a.kind == "fp*" else None
            if k is None:
                raise Skip("memory")
            if op == "store":
                st.mem[k] = self.val(st, i.ops[0])
                return [st]
            v = st.mem.get(k) or (self.field or {}).get(k)
            if v is None:
                raise Flaw(i, "unset", "field number %d of the modulus is used but spasm_field_init does not set it" % k)
            e[i] = v
            return [st]
        if op in ("add", "sub", "mul"):
            if w == 1:
                raise Skip("logic")
            a, b = self.ints(st, i)
            e[i] = self.keep(i, pmul(a, b) if op == "mul" else padd(a, b, 1 if op == "add" else -1), w)
            return [st]
        if op in ("sdiv", "udiv", "ashr", "lshr", "srem", "urem"):
            return self.division(st, i, op)
        if op in ("sext", "zext"):
            v = self.val(st, i.ops[0])
            if v.kind == "i":
                if op == "zext" and not self.proves(st, self.lin(st, v.p)):
                    raise Skip("zext")
                e[i] = v
                return [st]
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), v, t):
                    s.env[i] = I(pc((1 if op == "zext" else -1) if t else 0))
                    out.append(s)
            return out
        if op == "trunc":
            a, = self.ints(st, i, 1)
            f = self.lin(st, a)
            top = (1 << (w - 1)) - 1
            if self.fits(a, w) or (self.proves(st, ladd(lconst(top), f, -1)) and self.proves(st, ladd(lconst(top + 1), f))):
                e[i] = I(a)
                return [st]
            raise Flaw(i, "trunc", "a value that may not fit is truncated to %d bits" % w)
        if op == "freeze":
            e[i] = self.val(st, i.ops[0])
            return [st]
        if op == "icmp":
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if a.kind != "i" and b.kind == "i" and isc(b.p):
                t = bool(b.p.get((), 0))
                e[i] = a if (i.pred == "eq") == t else Val("not", a=a)
                return [st]
            if a.kind != "i" or b.kind != "i":
                raise Skip("comparison")
            pred = i.pred
            if pred[0] == "u":
                if not all(self.proves(st, self.lin(st, x.p)) for x in (a, b)):
                    raise Skip("unsigned comparison")
                pred = "s" + pred[1:]
            e[i] = Val("cmp", pred=pred, a=a.p, b=b.p)
            return [st]
        if op in ("and", "or", "xor") and w == 1:
            a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if op == "xor":
                if b.kind != "c":
                    raise Skip("xor")
                e[i] = Val("not", a=a) if b.v else a
            else:
                e[i] = Val(op, a=a, b=b)
            return [st]
        if op in ("and", "xor", "or"):
            return self.bits(st, i)
        if op == "select":
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), self.val(st, i.ops[0]), t):
                    s.env[i] = self.val(s, i.ops[1 if t else 2])
                    out.append(s)
            return out
        if op == "sitofp":
            a, = self.ints(st, i, 1)
            m = self.magnitude(self.expand(a))
            err = {}
            if meval(m, self.lo, self.hi) > 1 / EPS[i.type]:
                err = mmul(m, {0: EPS[i.type]})
            e[i] = Val("f", e={k: Q(c) for k, c in a.items()}, err=err, m=m)
            return [st]
        if op in ("fpext", "fptrunc"):
            a = self.flt(st, i.ops[0])
            e[i] = a if op == "fpext" else self.rounded(a.e, a.err, a.m, "float")
            return [st]
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
            e[i] = self.float_op(i.type, op, [self.flt(st, o) for o in i.ops])
            return [st]
        if op == "fptosi":
            a = self.flt(st, i.ops[0])
            e[i] = self.integer(i, a, Q(1), w)
            return [st]
        if op == "call":
            return self.call(st, i)
        raise Skip(op)

    def bits(self, st, i):
        """x & mask, where mask is 0 or -1 depending on the sign of a value (branch-free selection)"""
        a, b = self.ints(st, i)
        for x, y in ((a, b), (b, a)):
            if i.op == "and" and isc(x):
                c = x.get((), 0)
                if c == 0:
                    st.env[i] = I({})
                    return [st]
                if c == -1:
                    st.env[i] = I(y)
                    return [st]
        raise Skip("bit operation")

    def flt(self, st, v):
        r = self.val(st, v)
        if r.kind != "f":
            raise Skip("float")
        return r

    def rounded(self, ex, err, m, t):
        tot = madd(m, err)
        return Val("f", e=ex, err=madd(err, mmul(tot, {0: EPS[t]})), m=m)

    def float_op(self, t, op, v):
        if t not in EPS:
            raise Skip("type")
        if op == "fneg":
            return Val("f", e={k: -c for k, c in v[0].e.items()}, err=v[0].err, m=v[0].m)
        a, b = v
        if op in ("fadd", "fsub"):
            ex = padd(a.e, b.e, 1 if op == "fadd" else -1)
            return self.rounded(ex, madd(a.err, b.err), madd(a.m, b.m), t)
        if op == "fmul":
            err = madd(madd(mmul(a.err, b.m), mmul(a.m, b.err)), mmul(a.err, b.err))
            m = mmul(a.m, b.m)
            if not a.err and not b.err and meval(m, self.lo, self.hi) <= 1 / EPS[t] and not any("1/p" in k for k in pmul(a.e, b.e)):
                return Val("f", e=pmul(a.e, b.e), err={}, m=m)           # exact integer product
            return self.rounded(pmul(a.e, b.e), err, m, t)
        if op == "fdiv":                            # only by p
            if set(b.e) == {("p",)} and b.e[("p",)] == 1 and set(b.err) <= {1}:
                rel = b.err.get(1, Q(0))             # 1/b = (1 + d)/p with |d| <= rel / (1 - rel)
                rel = rel / (1 - rel)
                err = madd(mmul(a.err, {-1: 1 + rel}), mmul(a.m, {-1: rel}))
                return self.rounded(pmul(a.e, {("1/p",): Q(1)}), err, mmul(a.m, {-1: Q(1)}), t)
        raise Skip(op)

    def integer(self, i, a, base, w):
        """an integer within base + rounding error of the real value"""
        m = madd(a.m, a.err)
        if meval(m, self.lo, self.hi) + 1 >= (1 << (w - 1)):
            raise Flaw(i, "convert", "the quotient may not fit in an integer")
        q = self.fresh("q", madd(m, {0: base}))
        if not hasattr(self, "quot"):
            self.quot = {}
        th = self.fresh("th", madd({0: base}, a.err))
        self.quot[q] = (a.e, th)
        return I(pa(q))

    def call(self, st, i):
        n = i.callee_name() or ""
        e = st.env
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
            return [st]
        if n.startswith(("llvm.fmuladd", "llvm.fma", "fma")):
            a, b, c = (self.flt(st, o) for o in i.ops[:3])
            e[i] = self.float_op(i.type, "fadd", [self.float_op(i.type, "fmul", [a, b]), c])
            return [st]
        if n.startswith(("llvm.floor", "llvm.ceil", "llvm.trunc", "floor", "ceil", "trunc")):
            a = self.flt(st, i.ops[0])
            q = self.integer(i, a, Q(1), 64)
            e[i] = Val("f", e={k: Q(c) for k, c in q.p.items()}, err={}, m=self.magnitude(q.p))
            return [st]
        if n.startswith(("llvm.round", "llvm.rint", "llvm.nearbyint", "round", "rint", "nearbyint", "llround", "lround", "lrint", "llrint",
                         "llvm.lround", "llvm.llround", "llvm.lrint", "llvm.llrint")):
            q = self.integer(i, self.flt(st, i.ops[0]), Q(1, 2), 64)
            e[i] = q if i.type[0] == "i" else Val("f", e={k: Q(c) for k, c in q.p.items()}, err={}, m=self.magnitude(q.p))
            return [st]
        if n in ("__assert_fail", "abort", "exit", "__assert"):
            return []
        if n.startswith(("llvm.smin", "llvm.smax")):
            a, b = self.ints(st, i)
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), Val("cmp", pred="slt", a=a, b=b), t):
                    s.env[i] = I(a if t == ("min" in n) else b)
                    out.append(s)
            return out
        if n.startswith("llvm.abs") or n in ("abs", "labs", "llabs"):
            a, = self.ints(st, i, 1)
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), Val("cmp", pred="slt", a=a, b={}), t):
                    s.env[i] = I({k: -c for k, c in a.items()} if t else a)
                    out.append(s)
            return out
        if n in self.summaries:
            return self.summaries[n](self, st, i)
        raise Skip("call to " + n)

    summaries = {}

    def division(self, st, i, op):
        a, b = self.ints(st, i)
        if op in ("ashr", "lshr"):
            if not isc(b) or not 0 <= b.get((), 0) < 32:
                if op == "ashr" and isc(b) and b.get((), 0) in (31, 63):     # sign mask
                    out = []
                    for t in (True, False):
                        for s in self.assume(st.copy(), Val("cmp", pred="slt", a=a, b={}), t):
                            s.env[i] = I(pc(-1 if t else 0))
                            out.append(s)
                    return out
                raise Skip("shift")
            b = pc(1 << b.get((), 0))
        nonneg = self.proves(st, self.lin(st, a))
        if op[0] in "ul" and not nonneg:
            raise Skip("unsigned")
        e = st.env
        if op in ("sdiv", "udiv", "ashr", "lshr"):
            if a == pa("p") and isc(b) and b.get((), 0) == 2:
                e[i] = I(pa("h"))
                return [st]
            if isc(b) and b.get((), 0) > 0 and (nonneg or op == "ashr"):
                c = b[()]
                q = self.fresh("d", madd(mmul(self.magnitude(self.expand(a)), {0: Q(1, c)}), {0: Q(1)}))
                f = self.lin(st, a)
                st.facts += [ladd(f, latom(q), -c), ladd(ladd(lscale(latom(q), c), lconst(c - 1)), f, -1)]
                e[i] = I(pa(q))
                return [st]
            raise Skip("division")
        if b == pa("p"):
            r = self.fresh("r", {1: Q(1)})
            self.alias[r] = a
            P = latom("p")
            st.facts += [ladd(ladd(P, lconst(-1)), latom(r), -1), latom(r) if nonneg else ladd(ladd(P, lconst(-1)), latom(r))]
            e[i] = I(pa(r))
            return [st]
        raise Skip("remainder")

    # ---- what a value is modulo p
    def residue(self, p):
        while True:
            out = {}
            ch = False
            for m, c in p.items():
                if "p" in m and "1/p" not in m:
                    ch = True
                    continue
                t = {(): c}
                for x in m:
                    if x in self.alias:
                        ch = True
                        t = pmul(t, self.alias[x])
                    else:
                        t = pmul(t, pa(x))
                out = padd(out, t)
            p = out
            if not ch:
                return p


def base_facts(lo, hi):
    P, h = latom("p"), latom("h")
    return [ladd(P, h, -2), ladd(ladd(lscale(h, 2), lconst(1)), P, -1), ladd(P, lconst(-lo)), ladd(lconst(hi), P, -1)]


def modulus(M, fn, rep):
    """evaluate spasm_field_init: the accepted range and the values of the fields"""
    asserted = []
    ev = Eval(M, fn, None, {"mag": {"p": {1: Q(1)}, "h": {1: Q(1, 2)}}, "range": (2, (1 << 63) - 1), "field": None})
    # the accepted range: constant comparisons of the modulus on which a failure depends
    lo, hi = 2, None
    for b in fn.blocks:
        t = b.term
        if t.op != "br" or len(b.succs) != 2 or t.ops[0].kind != "inst" or t.ops[0].op != "icmp":
            continue
        bad = [x.term.op == "unreachable" for x in t.targets]
        if sum(bad) != 1:
            continue
        c = t.ops[0]
        x, y, pred = c.ops[0], c.ops[1], c.pred
        if x.kind == "int":
            x, y, pred = y, x, {"slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}.get(pred, pred)
        if y.kind != "int" or x is not fn.args[0]:
            continue
        if bad[0]:
            pred = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}.get(pred, pred)
        if pred in ("slt", "sle"):
            v = y.val - (pred == "slt")
            hi = v if hi is None else min(hi, v)
    if hi is None:
        hi = (1 << 63) - 1
    ev.hi = hi
    st = State()
    st.env[fn.args[0]] = I(pa("p"))
    st.env[fn.args[1]] = Val("F")
    st.facts += base_facts(2, hi)
    ev.run(st)
    outs = [s for s, t, v in ev.rets if not ln.infeasible(s.facts)]
    if len(outs) != 1:
        raise Skip("several ways to set the modulus")
    return (2, hi), {k: v for k, v in outs[0].mem.items() if isinstance(k, int)}, outs[0].facts


class Inverse(Eval):
    """extended Euclid: the loop keeps x.a = y (mod p) for the pairs (x, y)"""

    def loop(self, L, h, st):
        ph = [x for x in h.phis]
        vals = {}
        for x in ph:
            v = st.env.get(x)
            if v is None or v.kind != "i":
                raise Skip("loop")
            vals[x] = v.p
        a = self.arg
        rem = [x for x in ph if not isc(vals[x])]
        cof = [x for x in ph if isc(vals[x])]
        # other loop variables would be ignored
        if len(ph) != 4 or len(rem) != 2 or len(cof) != 2:
            raise Skip("loop form")
        best = None
        for pair in (dict(zip(cof, rem)), dict(zip(cof, reversed(rem)))):
            try:
                r = self.turn(L, h, st, vals, pair)
            except Flaw as f:
                best = best or f
                continue
            return r
        raise best

    def turn(self, L, h, st, vals, pair):
        """pair: cofactor phi -> remainder phi"""
        a = self.arg
        w = h.phis[0]
        for c, y in pair.items():
            if self.residue(padd(pmul(vals[c], pa(a)), vals[y], -1)):
                raise Flaw(h.term, "bezout", "the cofactor %s does not belong to the remainder %s on entry of the loop" % (c.name, y.name))
        names = {x: "phi:" + x.name for x in vals}
        # one turn, as polynomials over the phis
        s = st.copy()
        for x in vals:
            s.env[x] = I(pa(names[x]))
        for x in vals:
            self.mag[names[x]] = {0: Q(1)}
        ends, exits = [], []
        div = {}
        work = [(h, s, None, [])]
        while work:
            b, s, frm, conds = work.pop()
            if b is not h:
                for p in b.phis:
                    s.env[p] = next(self.val(s, v) for v, pb in p.incoming if pb is frm)
            for i in b.insts:
                if i.op == "phi" or i is b.term:
                    continue
                if i.op in ("sdiv", "srem") and i.ops[0].type != "i1":
                    x, y = self.ints(s, i)
                    k = (frozenset(x.items()), frozenset(y.items()))
                    if k not in div:
                        div[k] = ("quo%d" % len(div), x, y)
                        self.mag[div[k][0]] = {0: Q(1)}
                    q = pa(div[k][0])
                    s.env[i] = I(q) if i.op == "sdiv" else I(padd(x, pmul(q, y), -1))
                elif i.op in ("add", "sub", "mul"):
                    x, y = self.ints(s, i)
                    s.env[i] = I(pmul(x, y) if i.op == "mul" else padd(x, y, 1 if i.op == "add" else -1))
                elif i.op == "icmp":
                    x, y = self.ints(s, i)
                    s.env[i] = Val("cmp", pred=i.pred, a=x, b=y)
                elif i.op in ("sext", "freeze"):
                    s.env[i] = self.val(s, i.ops[0])
                elif i.op == "call" and (i.callee_name() or "").startswith("llvm.dbg"):
                    pass
                else:
                    raise Skip("loop body")
            t = b.term
            if t.op != "br":
                raise Skip("loop body")
            if len(b.succs) == 1:
                nx = [(b.succs[0], None)]
            else:
                nx = list(zip(t.targets, (True, False)))
            for x, tr in nx:
                c2 = conds + ([(self.val(s, t.ops[0]), tr)] if tr is not None else [])
                if x is h:
                    e2 = {}
                    for p in vals:
                        e2[p] = next(self.val(s, v) for v, pb in p.incoming if pb is b).p
                    ends.append((e2, c2))
                elif x not in L.blocks:
                    if x.term.op != "unreachable":
                        exits.append((x, s, c2, b))
                else:
                    if len(work) > 20:
                        raise Skip("loop body")
                    work.append((x, s.copy(), b, c2))
        if len(ends) != 1 or len(exits) != 1 or len(div) != 1:
            raise Skip("loop form")
        nxt, _ = ends[0]
        x, se, conds, last = exits[0]
        q, num, den = list(div.values())[0]
        # x'.a = y' follows when x' is the same combination of the cofactors as y' is of the remainders
        sub = {names[y]: pmul(pa(names[c]), pa(a)) for c, y in pair.items()}

        def put(p):
            out = {}
            for m, k in p.items():
                t = {(): k}
                for z in m:
                    t = pmul(t, sub.get(z, pa(z)))
                out = padd(out, t)
            return out
        for c, y in pair.items():
            if padd(put(nxt[y]), pmul(nxt[c], pa(a)), -1):
                raise Flaw(h.term, "bezout", "one turn of the loop breaks the relation between the cofactor %s and the remainder %s" %
                           (c.name, y.name))
        (c1, y1), (c2, y2) = pair.items()
        # the determinant only changes sign, so that the cofactors stay below p
        det = lambda v: padd(pmul(v[c1], v[y2]), pmul(v[c2], v[y1]), -1)
        old = det({z: pa(names[z]) for z in vals})
        new = det(nxt)
        if padd(old, new) and padd(old, new, -1):
            raise Flaw(h.term, "bezout", "the loop does not keep the remainders coprime")
        d0 = self.plain(det(vals))
        if d0 not in ({("p",): 1}, {("p",): -1}):
            raise Flaw(h.term, "bezout", "the loop does not start from the modulus and the operand")
        # the next remainders: the divisor, and the remainder of the division
        if not (set(num) <= {(names[y1],), (names[y2],)} and set(den) <= {(names[y1],), (names[y2],)} and len(num) == len(den) == 1):
            raise Skip("division")
        want = [den, padd(num, pmul(pa(q), den), -1)]
        got = [nxt[y1], nxt[y2]]
        if sorted(map(str, want)) != sorted(map(str, got)) and not all(w in got for w in want):
            raise Flaw(h.term, "bezout", "the next remainders are not the divisor and the remainder of the division")
        # left when the divisor vanishes: the other remainder is then the gcd, 1
        ok = len(conds) == 1 and conds[0][0].kind == "cmp"
        if ok:
            c, tr = conds[0]
            d = padd(c.a, c.b, -1)
            z = (c.pred == "ne" and not tr) or (c.pred == "eq" and tr) or \
                (c.pred in ("sgt",) and not tr and d == den) or (c.pred == "sle" and tr and d == den)
            ok = z and (d == den or d == {m: -k for m, k in den.items()})
        if not ok:
            raise Flaw(h.term, "bezout", "the loop is not left exactly when the divisor is zero")
        gcd = next(y for y in (y1, y2) if pa(names[y]) == num)
        s2 = st.copy()
        P = latom("p")
        for c, y in pair.items():
            s2.env[y] = I(pc(1)) if y is gcd else I({})
            z = self.fresh("inv" if y is gcd else "cof", {1: Q(1)})
            s2.env[c] = I(pa(z))
            s2.facts += [ladd(P, latom(z), -1), ladd(P, latom(z))]
            if y is gcd:
                s2.mem["result"] = pa(z)
        # values of the last partial turn that are still used: only those of the header
        for i in h.insts:
            if i.op != "phi" and i is not h.term:
                s2.env[i] = Val("u")
        return [(x, s2)]

    def plain(self, p):
        """initial values: the operand is congruent to (not equal to) the argument; compare modulo that"""
        return {m: c for m, c in p.items()}


def check(b, rep):
    rep.rule("modulus", "spasm_field_init: the stored half ranges are those of the balanced representation, for every accepted modulus")
    rep.rule("operation", "on every path, the returned value is congruent to the exact result and lies in the balanced range; no "
             "intermediate value overflows, no conversion loses bits, rounding of the quotient is compensated")
    rep.rule("inverse", "extended Euclid: loop invariants checked as polynomial identities, the result is normalised")
    rep.expl = ("Exact symbolic evaluation of every path of the field operations (LLVM IR, helpers inlined): integers as polynomials over the "
                "operands, p, floor(p/2) and truncated quotients; floating-point values as exact expressions with rounding-error bounds, all "
                "as functions of p; range tests decided by linear arithmetic, for all moduli at once.")
    rep.assumptions = ["round to nearest", "the modulus is prime and the inverted operand is not zero", "operands are canonical"]
    M = b.lib(keep=set(API) - {"spasm_get_prime", "spasm_max", "spasm_min"})
    F = M.functions
    fn = F.get("spasm_field_init")
    try:
        rng, field, facts = modulus(M, fn, rep)
    except Skip as e:
        rep.ok("modulus", fn.name, "not decided: %s" % e)
        return
    except Flaw as f:
        rep.bad("modulus", f.i, f.key, f.msg)
        return
    lo, hi = rng
    P, h = latom("p"), latom("h")
    ev = Eval(M, fn, None, {"mag": {"p": {1: Q(1)}, "h": {1: Q(1, 2)}}, "range": rng, "field": None})
    if hi >= (1 << 32):
        rep.bad("modulus", fn.blocks[0].term, "range", "moduli up to %d are accepted: the balanced residues do not fit in 32 bits" % hi)
        return
    want = {0: P, 1: h, 2: ladd(ladd(h, P, -1), lconst(1))}
    names = {0: "modulus", 1: "largest residue", 2: "smallest residue"}
    good = True
    for k, f in want.items():
        v = field.get(k)
        if v is None or v.kind != "i" or not ln.prove0(facts, ladd(ev.lin(State(), v.p), f, -1)):
            # a field that is stored but set otherwise is judged by what the operations do with it
            good = False
    v = field.get(3)
    rep.ok("modulus", fn.name, "p in [2, %d]; fields as expected: %s" % (hi, good))
    balanced = (ladd(ladd(h, P, -1), lconst(1)), h)

    def operand(st, a, name):
        st.env[a] = I(pa(name))
        st.facts += [ladd(latom(name), balanced[0], -1), ladd(balanced[1], latom(name), -1)]

    def verdict(ev, rule, fname, exact):
        n = 0
        for s, t, v in ev.rets:
            if v is None or v.kind != "i":
                raise Skip("result")
            n += 1
            f = ev.lin(s, v.p)
            if ln.infeasible(s.facts):
                continue
            d = ev.residue(padd(v.p, exact(s), -1))
            if d:
                raise Flaw(t, "congruence", "%s: on some path the result is not congruent to the exact value" % fname)
            if not (ev.proves(s, ladd(f, balanced[0], -1)) and ev.proves(s, ladd(balanced[1], f, -1))):
                raise Flaw(t, "range", "%s: on some path the result may lie outside the balanced range" % fname)
        if not n:
            raise Skip("no result")
        return n
    for name in list(OPS) + ["spasm_ZZp_inverse"]:
        fn = F.get(name)
        if fn is None or not fn.blocks:
            continue
        rule = "operation" if name in OPS else "inverse"
        world = {"mag": {"p": {1: Q(1)}, "h": {1: Q(1, 2)}}, "range": rng, "field": field}
        ev = (Eval if name in OPS else Inverse)(M, fn, None, world)
        ev.summaries = {n: summary(n) for n in OPS if n != name}
        st = State()
        st.facts += base_facts(lo, hi)
        args = []
        st.env[fn.args[0]] = Val("F")
        for k, a in enumerate(fn.args[1:]):
            x = "x%d" % k
            args.append(x)
            if name == "spasm_ZZp_init":
                st.env[a] = I(pa(x))
                ev.mag[x] = {0: Q(1 << 63)}
            else:
                operand(st, a, x)
                ev.mag[x] = {1: Q(1, 2)}
        if name == "spasm_ZZp_inverse":
            ev.arg = args[0]
        try:
            ev.run(st)
            if name in OPS:
                n = verdict(ev, rule, name, lambda s: OPS[name](args))
            else:
                if any("result" not in s.mem for s, _, _ in ev.rets):
                    raise Skip("no Euclidean loop")
                n = verdict(ev, rule, name, lambda s: s.mem["result"])
        except Skip as e:
            rep.ok(rule, name, "not decided: %s" % e)
            continue
        except Flaw as f:
            rep.bad(rule, f.i, f.key, "%s: %s" % (name, f.msg) if name not in f.msg else f.msg)
            continue
        rep.ok(rule, name, "%d paths" % n)


def summary(n):
    """another field operation: its own verdict is given separately"""
    def f(ev, st, i):
        a = [ev.val(st, o) for o in i.ops[1:]]
        if ev.val(st, i.ops[0]).kind != "F" or any(x.kind != "i" for x in a):
            raise Skip("call")
        P, h = latom("p"), latom("h")
        if n != "spasm_ZZp_init":
            for x in a:
                g = ev.lin(st, x.p)
                if not (ev.proves(st, ladd(ladd(g, h, -1), ladd(P, lconst(-1)))) and ev.proves(st, ladd(h, g, -1))):
                    raise Flaw(i, "operand", "an operand of %s may lie outside the balanced range" % n)
        r = ev.fresh("op", {1: Q(1, 2)})
        names = ["#%d" % k for k in range(len(a))]
        spec = OPS[n](names)
        out = {}
        for m, c in spec.items():
            t = {(): c}
            for z in m:
                t = pmul(t, a[names.index(z)].p if z in names else pa(z))
            out = padd(out, t)
        ev.alias[r] = out
        st.facts += [ladd(ladd(latom(r), h, -1), ladd(P, lconst(-1))), ladd(h, latom(r), -1)]
        st.env[i] = I(pa(r))
        return [st]
    return f


if __name__ == "__main__":
    from api import API
    sys.exit(run("P11", check))
