"""Canonical symbolic terms for SSA values of a unit (public function + its parallel bodies).

Integers are polynomials over atoms:   ('poly', ((monomial, coef), ...), const)   monomial = tuple of atoms
(a single atom with coefficient 1 is returned bare; constants are ('c', k)).  Casts between integer widths are
transparent (widths are the business of P07/P08).  Conditions are ('lt0', t) ('eq0', t) ('ne0', t) and combinations.
Pointers:  ('arg', i) ('al', alloca) ('glob', n) ('call', name, inst) ('fld', base, struct, k) ('el', base, idx)
Loads: ('ld', address).  Memory versions are not distinguished.
"""
import cfg


def key(t):
    return repr(t)


def C(k):
    return ("c", k)


def to_poly(t):
    """term -> (dict monomial->coef, const)"""
    if t[0] == "c":
        return {}, t[1]
    if t[0] == "poly":
        return dict(t[1]), t[2]
    return {(t,): 1}, 0


def mk(d, k):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ("c", k)
    if k == 0 and len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return ("poly", tuple(sorted(d.items(), key=key)), k)


def add(a, b, s=1):
    d, k = to_poly(a)
    e, l = to_poly(b)
    d = dict(d)
    for m, c in e.items():
        d[m] = d.get(m, 0) + s * c
    return mk(d, k + s * l)


def mul(a, b):
    d, k = to_poly(a)
    e, l = to_poly(b)
    r = {}

    def acc(m, c):
        r[m] = r.get(m, 0) + c
    for m, c in d.items():
        for n, x in e.items():
            acc(tuple(sorted(m + n, key=key)), c * x)
        acc(m, c * l)
    for n, x in e.items():
        acc(n, x * k)
    return mk(r, k * l)


def neg(a):
    return mul(a, C(-1))


def neg_cond(c):
    if c[0] == "lt0":          # not (t < 0)  ==  -t-1 < 0
        return ("lt0", add(neg(c[1]), C(-1)))
    if c[0] == "eq0":
        return ("ne0", c[1])
    if c[0] == "ne0":
        return ("eq0", c[1])
    if c[0] == "not":
        return c[1]
    if c[0] == "c":
        return C(0 if c[1] else 1)
    if c[0] == "and":
        return ("or",) + tuple(sorted((neg_cond(x) for x in c[1:]), key=key))
    if c[0] == "or":
        return ("and",) + tuple(sorted((neg_cond(x) for x in c[1:]), key=key))
    return ("not", c)


def eqn(t, ne=False):
    """normal form of t == 0"""
    d, k = to_poly(t)
    if not d:
        return C(int((k == 0) != ne))
    if len(d) == 1 and k in (0, 1, -1):
        (m, c), = d.items()
        if len(m) == 1 and m[0][0] in ("lt0", "eq0", "ne0", "and", "or", "not", "fcmp"):
            # a condition used as an integer:  b == 0 / b == 1
            v = -k // c if c in (1, -1) else None
            if v == 0:
                return m[0] if ne else neg_cond(m[0])
            if v == 1:
                return neg_cond(m[0]) if ne else m[0]
    first = sorted(d.items(), key=key)[0][1]
    if first < 0:
        t = neg(t)
    return ("ne0" if ne else "eq0", t)


COND = ("lt0", "eq0", "ne0", "and", "or", "not", "fcmp", "ult")


class Sym:
    def __init__(self, unit, M=None, depth=60):
        self.u = unit
        self.memo = {}
        self.open = set()
        self.M = M

    # ------------------------------------------------------------------
    def t(self, v):
        if v.kind == "int":
            return C((v.val & 1) if v.type == "i1" else v.val)
        if v.kind == "null":
            return ("null",)
        if v.kind == "fp":
            return ("f", v.val)
        if v.kind in ("undef", "zero"):
            return ("undef",)
        if v.kind in ("global", "func"):
            return ("glob", v.name)
        if v.kind == "cexpr":
            if v.op == "gep":
                return self.gep(v)
            if v.ops and v.op == "bitcast":
                return self.t(v.ops[0])
            return ("cexpr", v.op)
        r = self.memo.get(v)
        if r is not None:
            return r
        if v in self.open:
            return ("rec", v)
        self.open.add(v)
        r = self._t(v)
        self.open.discard(v)
        if not has_rec(r):
            self.memo[v] = r
        return r

    def _t(self, v):
        if v.kind == "arg":
            if v in self.u.bind and len(self.u.bind[v]) == 1:
                return self.t(self.u.bind[v][0])
            return ("arg", v.idx) if v.fn is self.u.fn else ("oarg", v)
        if v.kind != "inst":
            return ("?", v)
        op = v.op
        if op == "load":
            rv = self.u.resolve(v)
            if rv is not v:
                return self.t(rv)
            return self.load(v)
        if op in ("sext", "zext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            if op == "trunc" and v.type == "i1":
                x = self.t(v.ops[0])
                return x if x[0] in COND or x[0] == "c" else eqn(x, True)
            return self.t(v.ops[0])
        if op == "add":
            return add(self.t(v.ops[0]), self.t(v.ops[1]))
        if op == "sub":
            return add(self.t(v.ops[0]), self.t(v.ops[1]), -1)
        if op == "mul":
            return mul(self.t(v.ops[0]), self.t(v.ops[1]))
        if op == "shl" and v.ops[1].is_int():
            return mul(self.t(v.ops[0]), C(1 << v.ops[1].val))
        if op == "icmp":
            return self.icmp(v)
        if op in ("and", "or", "xor") and v.type == "i1":
            a, b = self.t(v.ops[0]), self.t(v.ops[1])
            if op == "xor":
                if b == C(1):
                    return neg_cond(self.cond(a))
                if a == C(1):
                    return neg_cond(self.cond(b))
                return ("op", "xor") + tuple(sorted((a, b), key=key))
            return self.bool2(op, self.cond(a), self.cond(b))
        if op == "select":
            return self.sel(self.cond(self.t(v.ops[0])), self.t(v.ops[1]), self.t(v.ops[2]))
        if op == "phi":
            return self.phi(v)
        if op == "gep":
            return self.gep(v)
        if op == "alloca":
            return ("al", v)
        if op == "call":
            n = v.callee_name() or "?"
            if n.startswith("llvm.smax") or n.startswith("llvm.umax"):
                return minmax("max", self.t(v.ops[0]), self.t(v.ops[1]))
            if n.startswith("llvm.smin") or n.startswith("llvm.umin"):
                return minmax("min", self.t(v.ops[0]), self.t(v.ops[1]))
            return ("call", n, v)
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
            return ("fop", op) + tuple(self.t(o) for o in v.ops)
        if op == "fcmp":
            return ("fcmp", v.pred, self.t(v.ops[0]), self.t(v.ops[1]))
        if op in ("sdiv", "udiv", "srem", "urem", "and", "or", "xor", "lshr", "ashr", "shl"):
            a, b = self.t(v.ops[0]), self.t(v.ops[1])
            if op in ("and", "or", "xor"):
                a, b = sorted((a, b), key=key)
            return ("op", op, a, b)
        return ("inst", v)

    def cond(self, t):
        if t[0] in COND or t[0] == "c":
            return t
        return eqn(t, True)

    def bool2(self, op, a, b):
        if a == C(0):
            return a if op == "and" else b
        if a == C(1):
            return b if op == "and" else a
        if b == C(0):
            return b if op == "and" else a
        if b == C(1):
            return a if op == "and" else b
        parts = []
        for x in (a, b):
            parts += list(x[1:]) if x[0] == op else [x]
        return (op,) + tuple(sorted(set(parts), key=key))

    def icmp(self, v):
        p = v.pred
        a, b = self.t(v.ops[0]), self.t(v.ops[1])
        if v.ops[0].type == "ptr":
            if p in ("eq", "ne"):
                x, y = sorted((a, b), key=key)
                c = ("eq0", ("pdiff", x, y))
                return c if p == "eq" else neg_cond(c)
            return ("pcmp", p, a, b)
        d = add(a, b, -1)
        if p in ("eq", "ne"):
            return eqn(d, p == "ne")
        if p in ("ult", "ule", "ugt", "uge") and not (b[0] == "c" and b[1] >= 0 and False):
            return ("ult", p, a, b)
        if p == "slt":
            return lt0(d)
        if p == "sle":
            return lt0(add(d, C(-1)))
        if p == "sgt":
            return lt0(neg(d))
        return lt0(add(neg(d), C(-1)))

    def sel(self, c, a, b):
        if c == C(1):
            return a
        if c == C(0):
            return b
        if a == b:
            return a
        if a == C(1) and b == C(0):
            return c
        if a == C(0) and b == C(1):
            return neg_cond(c)
        # null alternatives carry no provenance
        if a == ("null",):
            return b
        if b == ("null",):
            return a
        if a[0] in COND + ("c",) and b[0] in COND + ("c",) and (a[0] in COND or b[0] in COND):
            if b == C(0):
                return self.bool2("and", c, a)
            if a == C(1):
                return self.bool2("or", c, b)
        if c[0] == "lt0":
            d = add(a, b, -1)
            for k in (0, -1):
                if c[1] == add(d, C(k)):
                    return minmax("min", a, b)
                if c[1] == add(neg(d), C(k)):
                    return minmax("max", a, b)
        return ("sel", c, a, b)

    def phi(self, v):
        vals = [(self.t(x), b) for x, b in v.incoming]
        ts = {t for t, _ in vals}
        if len(ts) == 1:
            return next(iter(ts))
        nn = {t for t in ts if t not in (("null",), ("undef",))}
        if len(nn) == 1 and not has_rec(next(iter(nn))):
            return next(iter(nn))
        if len(vals) == 2:
            b = v.block
            d = cfg.idom(v.fn).get(b)
            if d is not None and d is not b and d.term.op == "br" and len(d.term.targets) == 2 \
                    and not any(cfg.dominates(b, p) for p in b.preds):
                T, F = d.term.targets
                side = []
                for t, p in vals:
                    if p is d:
                        side.append("T" if T is b and F is not b else ("F" if F is b and T is not b else None))
                    elif cfg.dominates(T, p) and T is not b and not cfg.dominates(F, p):
                        side.append("T")
                    elif cfg.dominates(F, p) and F is not b and not cfg.dominates(T, p):
                        side.append("F")
                    else:
                        side.append(None)
                if sorted(map(str, side)) == ["F", "T"]:
                    a = vals[side.index("T")][0]
                    z = vals[side.index("F")][0]
                    return self.sel(self.cond(self.t(d.term.ops[0])), a, z)
        return ("phi", v)

    def load(self, v):
        # a scalar local assigned several times, always with the same term
        p = v.ops[0]
        a = self.t(p)
        if a[0] == "al":
            st = self.u.stores_to(a[1])
            if st:
                ts = set()
                for s in st:
                    x = self.t(s.ops[0])
                    if x != ("null",):
                        ts.add(x)
                if len(ts) == 1:
                    x = next(iter(ts))
                    if not has_rec(x) and v.type == "ptr":
                        return x
        return ("ld", a)

    def gep(self, v):
        base = self.t(v.ops[0])
        ty = v.srctype
        idx = v.ops[1:]
        if ty.startswith("%"):
            i0 = self.t(idx[0])
            if i0 != C(0):
                base = el(base, i0)
            for k in idx[1:]:
                if ty and ty.startswith("%"):
                    base = ("fld", base, ty[1:].replace("struct.", ""), k.val)
                    st = self.M.structs.get(ty) if self.M else None
                    ty = st[k.val] if st and k.val < len(st) else None
                else:
                    t = self.t(k)
                    base = el(base, t) if t != C(0) else base
            return base
        if ty.startswith("["):
            i0 = self.t(idx[0])
            if i0 != C(0):
                base = el(base, i0)
            for k in idx[1:]:
                base = el(base, self.t(k))
            return base
        return el(base, self.t(idx[0]))


def el(base, i):
    if i == C(0):
        return base
    if base[0] == "el":
        return el(base[1], add(base[2], i))
    return ("el", base, i)


def el_split(a):
    """address -> (array base, index)"""
    if a[0] == "el":
        return a[1], a[2]
    return a, C(0)


def minmax(op, a, b):
    x, y = sorted((a, b), key=key)
    return (op, x, y)


def lt0(t):
    if t[0] == "c":
        return C(int(t[1] < 0))
    return ("lt0", t)


def has_rec(t):
    if isinstance(t, tuple):
        if t and t[0] == "rec":
            return True
        return any(has_rec(x) for x in t if isinstance(x, tuple))
    return False


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple):
                for y in walk(x):
                    yield y


def atoms(t):
    d, _ = to_poly(t)
    out = set()
    for m in d:
        out |= set(m)
    return out


def subst(t, f):
    """rebuild t with f applied to atoms (f returns None to keep)"""
    r = f(t)
    if r is not None:
        return r
    if t[0] == "c":
        return t
    if t[0] == "poly":
        acc = C(t[2])
        for m, c in t[1]:
            x = C(c)
            for a in m:
                x = mul(x, subst(a, f))
            acc = add(acc, x)
        return acc
    out = []
    for x in t:
        out.append(subst(x, f) if isinstance(x, tuple) and x and isinstance(x[0], str) else x)
    t2 = tuple(out)
    if t2[0] == "el":
        return el(t2[1], t2[2])
    if t2[0] in ("min", "max"):
        return minmax(t2[0], t2[1], t2[2])
    return t2


def show(t):
    if not isinstance(t, tuple):
        return repr(t)
    h = t[0]
    if h == "c":
        return str(t[1])
    if h == "poly":
        parts = []
        for m, c in t[1]:
            s = "*".join(show(a) for a in m)
            parts.append(s if c == 1 else ("-" + s if c == -1 else "%d*%s" % (c, s)))
        if t[2]:
            parts.append(str(t[2]))
        return "(" + " + ".join(parts) + ")"
    if h == "ld":
        a = t[1]
        if a[0] == "fld":
            return "%s->%s" % (show(a[1]), a[3])
        if a[0] == "el":
            return "%s[%s]" % (show(a[1]), show(a[2]))
        return "*" + show(a)
    if h == "fld":
        return "&%s->%s.%s" % (show(t[1]), t[2], t[3])
    if h == "el":
        return "%s+%s" % (show(t[1]), show(t[2]))
    if h == "arg":
        return "arg%d" % t[1]
    if h in ("al", "phi", "inst", "oarg", "rec"):
        return "%s:%r" % (h, t[1])
    if h == "call":
        return "%s()@%s" % (t[1], t[2].loc)
    return "%s(%s)" % (h, ", ".join(show(x) for x in t[1:]))
