"""Path-wise affine interpretation of the streaming-hash code: which bytes reach the block buffer, in which order.

Values are affine forms over the inputs (exact integers; a value known only modulo 2^w is brought back into range with an
explicit quotient), pointers are (region, byte offset).  Loops are cut at their header: affine relations between the loop
variables, the stored fields and the counters of bytes are conjectured at entry and kept only if every turn preserves them.
"""
from fractions import Fraction
import cfg
import linear as ln
from linear import add, scale, const, atom, is_const, cval


class Undecided(Exception):
    pass


class State:
    __slots__ = ("env", "mem", "facts", "g", "writes", "gen")

    def __init__(self):
        self.env, self.mem, self.facts, self.g, self.writes, self.gen = {}, {}, [], {}, [], 0

    def copy(self):
        s = State()
        s.env, s.mem, s.facts = dict(self.env), dict(self.mem), list(self.facts)
        s.g, s.writes, s.gen = dict(self.g), list(self.writes), self.gen
        return s


def width(t):
    return int(t[1:]) if t[0] == "i" and t[1:].isdigit() else 64


def sizeof(M, t):
    if t == "ptr":
        return 8
    if t[0] == "i" and t[1:].isdigit():
        return max(1, int(t[1:]) // 8)
    if t == "double":
        return 8
    if t == "float":
        return 4
    if t[0] == "[":
        n, e = t[1:-1].split(" x ", 1)
        return int(n) * sizeof(M, e)
    if t in M.structs:
        o = 0
        al = 1
        for f in M.structs[t]:
            a = align(M, f)
            al = max(al, a)
            o = -(-o // a) * a + sizeof(M, f)
        return -(-o // al) * al
    raise Undecided("size of " + t)


def align(M, t):
    if t[0] == "[":
        return align(M, t[1:-1].split(" x ", 1)[1])
    if t in M.structs:
        return max(align(M, f) for f in M.structs[t])
    return sizeof(M, t)


def field_off(M, t, k):
    o = 0
    for i, f in enumerate(M.structs[t]):
        a = align(M, f)
        o = -(-o // a) * a
        if i == k:
            return o, f
        o += sizeof(M, f)
    raise Undecided("field")


class Exec:
    MAXSTEP = 60000
    SIGNED = False
    MULT = (1, -1, 64, -64, -4, -8)

    def __init__(self, M, fn, client):
        self.M, self.fn, self.cl = M, fn, client
        self.loops = {L.header: L for L in cfg.loops(fn)}
        self.cuts = set()
        self.skips = {}
        self.quiet = 0
        self.n = 0
        self.steps = 0
        self.paths = 0

    # ---- values ---------------------------------------------------------------
    def fresh(self, name):
        self.n += 1
        return (name, self.n)

    def q(self, st, f, k, w=None):
        """the form of floor(f / 2^k)"""
        if is_const(f):
            return const(cval(f) >> k)
        if k == 0:
            return f
        g = {x: c // (1 << k) for x, c in f.items() if c % (1 << k) == 0}
        r = {x: c for x, c in f.items() if c % (1 << k)}
        if g:
            return add(g, self.q(st, r, k))
        if len(f) == 1:
            (x, c), = f.items()
            if c == 1 and isinstance(x, tuple) and x[0] == "q":
                return self.q(st, dict(x[1]), k + x[2])
        for m in sorted({(c & -c).bit_length() - 1 for c in f.values()}, reverse=True):
            if 0 < m <= k:
                lo = {x: c for x, c in f.items() if c % (1 << m)}
                if ln.prove(st.facts, lo) and ln.prove(st.facts, add(const((1 << m) - 1), lo, -1)):
                    hi = {x: c >> m for x, c in f.items() if c % (1 << m) == 0}
                    return self.q(st, hi, k - m)
        a = ("q", ln.key(f), k)
        if (len(f) == 1 or any(x != 1 and isinstance(x, tuple) and x[0] == "q" for x in f)) and ln.prove(st.facts, f) and \
                ln.prove(st.facts, add(const((1 << k) - 1), f, -1)):
            return {}
        e = add(f, atom(a), -(1 << k))
        for x in (e, add(const((1 << k) - 1), e, -1)):
            if x not in st.facts:
                st.facts.append(x)
        return atom(a)

    def exact(self, st, f, w):
        """the integer in [0, 2^w) congruent to f"""
        if is_const(f):
            return const(cval(f) % (1 << w))
        top = add(const((1 << w) - 1), f, -1)
        if ln.prove(st.facts, f) and (w >= 64 or ln.prove(st.facts, top)):
            return f
        f = ln.modred(f, w)
        return add(f, self.q(st, f, w), -(1 << w))

    def val(self, st, v):
        k = v.kind
        if k == "int":
            return ("i", const(v.val))
        if k in ("inst", "arg"):
            r = st.env.get(v)
            if r is None:
                raise Undecided("value %r" % v)
            return r
        if k == "null":
            return ("p", "null", {})
        if k == "global":
            return ("p", ("g", v.name), {})
        if k == "cexpr" and v.op == "gep":
            return self.gep(st, v)
        if k in ("undef", "zero"):
            return ("u",)
        return ("u",)

    def num(self, st, v):
        r = self.val(st, v)
        if r[0] != "i":
            raise Undecided("number %r" % (r,))
        return r[1]

    def gep(self, st, i):
        b = self.val(st, i.ops[0])
        if b[0] != "p":
            raise Undecided("address")
        off = b[2]
        t = i.srctype
        for n, o in enumerate(i.ops[1:]):
            x = self.num(st, o)
            if n == 0:
                off = add(off, x, sizeof(self.M, t))
            elif t in self.M.structs:
                d, t = field_off(self.M, t, cval(x))
                off = add(off, const(d))
            elif t[0] == "[":
                t = t[1:-1].split(" x ", 1)[1]
                off = add(off, x, sizeof(self.M, t))
            else:
                raise Undecided("gep")
        return ("p", b[1], off)

    # ---- conditions -----------------------------------------------------------
    def assume(self, st, c, truth):
        """states in which condition c has the given truth value"""
        if c[0] == "i":
            if not is_const(c[1]):
                raise Undecided("condition")
            return [st] if bool(cval(c[1]) & 1) == truth else []
        k = c[0]
        if k == "not":
            return self.assume(st, c[1], not truth)
        if k in ("and", "or"):
            if (k == "and") == truth:
                out = []
                for s in self.assume(st, c[1], truth):
                    out += self.assume(s, c[2], truth)
                return out
            out = self.assume(st.copy(), c[1], truth)
            for s in self.assume(st.copy(), c[1], not truth):
                out += self.assume(s, c[2], truth)
            return out
        if k == "cmp":
            p, a, b = c[1:]
            d = add(a, b, -1)          # a - b
            if p in ("ne", "eq"):
                if (p == "eq") == truth:
                    fs = [[d, scale(d, -1)]]
                else:
                    fs = [[add(d, const(-1))], [add(scale(d, -1), const(-1))]]
            else:
                lt = p[1:]
                if lt == "lt":
                    f, g = add(scale(d, -1), const(-1)), d
                elif lt == "le":
                    f, g = scale(d, -1), add(d, const(-1))
                elif lt == "gt":
                    f, g = add(d, const(-1)), scale(d, -1)
                else:
                    f, g = d, add(scale(d, -1), const(-1))
                fs = [[f if truth else g]]
            out = []
            for n, f in enumerate(fs):
                bad = False
                for x in f:
                    if ln.prove(st.facts, add(scale(x, -1), const(-1))):
                        bad = True
                if not bad:
                    s = st.copy() if len(fs) > 1 else st
                    s.facts += [x for x in f if x not in s.facts and not is_const(x)]
                    out.append(s)
            return out
        raise Undecided("condition")

    def cond(self, st, v):
        r = self.val(st, v)
        return r

    def icmp(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if a[0] == "p" and b[0] == "p":
            if a[1] != b[1]:
                eq = False
                if "null" in (a[1], b[1]):
                    return ("i", const(int((i.pred == "ne") != eq)))
                raise Undecided("pointer comparison")
            return ("cmp", i.pred, a[2], b[2])
        if a[0] in ("cmp", "and", "or", "not") and b[0] == "i" and is_const(b[1]):
            t = bool(cval(b[1]))
            return a if (i.pred == "eq") == t else ("not", a)
        if a[0] != "i" or b[0] != "i":
            raise Undecided("comparison")
        w = width(i.ops[0].type)
        x, y = self.exact(st, a[1], w), self.exact(st, b[1], w)
        if i.pred[0] == "s":
            half = 1 << (w - 1)

            def signed(f):
                if is_const(f):
                    return const(cval(f) - (1 << w) if cval(f) >= half else cval(f))
                if not ln.prove(st.facts, add(const(half - 1), f, -1)):
                    if w == 64:
                        return f                     # lengths are below 2^63
                    raise Undecided("signed comparison")
                return f
            x, y = signed(x), signed(y)
        if is_const(x) and is_const(y):
            u, v = cval(x), cval(y)
            p = i.pred if i.pred in ("eq", "ne") else i.pred[1:]
            r = {"eq": u == v, "ne": u != v, "lt": u < v, "le": u <= v, "gt": u > v, "ge": u >= v}[p]
            return ("i", const(int(r)))
        return ("cmp", i.pred, x, y)

    # ---- instructions ----------------------------------------------------------
    def inst(self, st, i):
        """list of successor states (the instruction's value set in each)"""
        op = i.op
        e = st.env
        if op in ("add", "sub", "mul", "shl", "or", "and", "xor", "lshr", "udiv", "urem", "sdiv", "srem", "ashr", "trunc", "zext", "sext",
                  "freeze", "ptrtoint"):
            r = self.arith(st, i)
            if isinstance(r, list):
                return r
            e[i] = r
            return [st]
        if op == "icmp":
            e[i] = self.icmp(st, i)
            return [st]
        if op == "gep":
            e[i] = self.gep(st, i)
            return [st]
        if op == "select":
            c = self.cond(st, i.ops[0])
            if i.type == "i1":
                a, b = self.val(st, i.ops[1]), self.val(st, i.ops[2])
                e[i] = ("or", ("and", c, a), ("and", ("not", c), b))
                return [st]
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), c, t):
                    s.env[i] = self.val(s, i.ops[1 if t else 2])
                    out.append(s)
            return out
        if op == "alloca":
            e[i] = ("p", ("a", i.id), {})
            return [st]
        if op == "load":
            e[i] = self.load(st, i)
            return [st]
        if op == "store":
            self.store(st, i, self.val(st, i.ops[1]), self.val(st, i.ops[0]), sizeof(self.M, i.ops[0].type))
            return [st]
        if op == "call":
            return self.call(st, i)
        if op == "bitcast":
            e[i] = self.val(st, i.ops[0])
            return [st]
        e[i] = ("u",)
        return [st]

    def arith(self, st, i):
        op, w = i.op, width(i.type)
        a = self.val(st, i.ops[0])
        if op == "ptrtoint":
            return a
        if a[0] in ("cmp", "and", "or", "not"):
            if op in ("zext", "sext"):
                out = []
                for t in (True, False):
                    for s in self.assume(st.copy(), a, t):
                        s.env[i] = ("i", const((1 if op == "zext" else -1) if t else 0))
                        out.append(s)
                return out
            if op == "freeze":
                return a
            b = self.val(st, i.ops[1])
            if op in ("and", "or"):
                return (op, a, b)
            if op == "xor":
                if b[0] == "i":
                    return ("not", a) if cval(b[1]) & 1 else a
                return ("or", ("and", a, ("not", b)), ("and", ("not", a), b))
            raise Undecided("flag arithmetic")
        if op == "sub" and a[0] == "p":
            b = self.val(st, i.ops[1])
            if b[0] == "p" and b[1] == a[1]:
                return ("i", add(a[2], b[2], -1))
            raise Undecided("pointer difference")
        if a[0] != "i":
            if a[0] == "w" and op in ("zext", "trunc", "freeze"):
                return ("u",)
            return ("u",)
        f = a[1]
        if op in ("trunc", "freeze"):
            return ("i", f)
        if op == "zext":
            return ("i", self.exact(st, f, width(i.ops[0].type)))
        if op == "sext":
            if width(i.ops[0].type) == 1:
                return ("i", scale(f, -1))
            return ("i", f)
        b = self.val(st, i.ops[1])
        if b[0] != "i":
            return ("u",)
        g = b[1]
        if is_const(f) and is_const(g) and op in ("sdiv", "srem", "ashr", "udiv", "urem", "lshr", "mul", "and", "or", "xor"):
            return ("i", const(self.fold(op, cval(f), cval(g), w)))
        if op == "add":
            return ("i", add(f, g))
        if op == "sub":
            return ("i", add(f, g, -1))
        if op == "mul":
            if is_const(g):
                return ("i", scale(f, cval(g)))
            if is_const(f):
                return ("i", scale(g, cval(f)))
            return ("u",)
        if op == "shl":
            if is_const(g):
                return ("i", scale(f, 1 << cval(g)))
            return ("u",)
        if op == "or":
            if is_const(f) and is_const(g):
                return ("i", const(cval(f) | cval(g)))
            for x, y in ((f, g), (g, f)):
                k = 0
                while k < 64 and all(c % (1 << (k + 1)) == 0 for c in ln.modred(x, w).values()):
                    k += 1
                y = self.exact(st, y, w)
                if k and ln.prove(st.facts, add(const((1 << k) - 1), y, -1)):
                    return ("i", add(x, y))
            return ("u",)
        if op == "xor" and is_const(g) and cval(g) % (1 << w) == (1 << w) - 1:
            return ("i", add(const(-1), f, -1))
        if not is_const(g):
            return ("u",)
        c = cval(g) % (1 << w)
        if op in ("udiv", "urem"):
            if not c or c & (c - 1):
                return ("u",)
            k = c.bit_length() - 1
            x = self.exact(st, f, w)
            qq = self.q(st, x, k)
            return ("i", qq if op == "udiv" else add(x, qq, -c))
        if op == "lshr":
            return ("i", self.q(st, self.exact(st, f, w), c))
        if op == "and":
            if c == (1 << w) - 1:
                return ("i", f)
            x = self.exact(st, f, w)
            if c & (c + 1) == 0:                       # 2^k - 1
                k = c.bit_length()
                return ("i", add(x, self.q(st, x, k), -(1 << k)))
            inv = (1 << w) - 1 - c
            if inv & (inv + 1) == 0:                   # 2^w - 2^k
                k = inv.bit_length()
                return ("i", scale(self.q(st, x, k), 1 << k))
        return ("u",)

    def fold(self, op, a, b, w):
        m = (1 << w) - 1
        sg = lambda x: (x & m) - (1 << w) if x & m & (1 << (w - 1)) else x & m
        if op in ("sdiv", "srem"):
            x, y = sg(a), sg(b)
            if y == 0:
                raise Undecided("division")
            d = abs(x) // abs(y)
            d = d if (x < 0) == (y < 0) else -d
            return d if op == "sdiv" else x - d * y
        if op == "ashr":
            return sg(a) >> (b & m)
        a, b = a & m, b & m
        if op in ("udiv", "urem"):
            if b == 0:
                raise Undecided("division")
            return a // b if op == "udiv" else a % b
        return {"lshr": a >> b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[op]

    def load(self, st, i):
        p = self.val(st, i.ops[0])
        if p[0] != "p":
            raise Undecided("load address")
        if isinstance(p[1], tuple) and p[1][0] == "a" and is_const(p[2]):
            k = (p[1], cval(p[2]))
            if k in st.mem:
                return st.mem[k][1]
            return ("u",)
        return self.cl.load(self, st, i, p, sizeof(self.M, i.type))

    def store(self, st, i, p, v, n):
        if p[0] != "p":
            raise Undecided("store address")
        if isinstance(p[1], tuple) and p[1][0] == "a":
            if not is_const(p[2]):
                raise Undecided("local array")
            st.mem[(p[1], cval(p[2]))] = (n, v)
            return
        self.cl.store(self, st, i, p, v, n)

    def call(self, st, i):
        n = i.callee_name() or ""
        if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime") or n.startswith("llvm.assume"):
            return [st]
        if n.startswith("llvm.bswap") or n in ("htonl", "ntohl", "__bswap_32", "__bswap_64", "htobe32", "htobe64"):
            a = self.val(st, i.ops[0])
            st.env[i] = ("bs", a[1], sizeof(self.M, i.type)) if a[0] == "i" else ("u",)
            return [st]
        if n.startswith("llvm.umin") or n.startswith("llvm.umax"):
            w = width(i.type)
            x, y = (self.exact(st, self.num(st, o), w) for o in i.ops[:2])
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), ("cmp", "ult", x, y), t):
                    s.env[i] = ("i", x if t == n.startswith("llvm.umin") else y)
                    out.append(s)
            return out
        if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
            d, s = self.val(st, i.ops[0]), self.val(st, i.ops[1])
            if d[0] != "p" or s[0] != "p":
                raise Undecided("memcpy")
            self.cl.copy(self, st, i, d, s, self.exact(st, self.num(st, i.ops[2]), 64))
            st.env[i] = d
            return [st]
        if n.startswith("llvm.memset") or n in ("memset", "bzero", "explicit_bzero"):
            d = self.val(st, i.ops[0])
            v = const(0) if "bzero" in n else self.num(st, i.ops[1])
            k = self.exact(st, self.num(st, i.ops[1 if "bzero" in n else 2]), 64)
            if d[0] != "p":
                raise Undecided("memset")
            if isinstance(d[1], tuple) and d[1][0] == "a":
                return [st]
            self.cl.set(self, st, i, d, v, k)
            st.env[i] = d
            return [st]
        st.env[i] = ("u",)
        r = self.cl.call(self, st, i, n)
        return [st] if r is None else r

    # ---- control ----------------------------------------------------------------
    def run(self, st):
        while True:
            try:
                self.quiet = 0
                self.steps = 0
                self.paths = 0
                self.cl.restart()
                self.go(self.fn.blocks[0], None, st.copy(), {})
                return
            except NewCut as c:
                if c.h in self.cuts:
                    raise Undecided("loop")
                self.cuts.add(c.h)

    def bad(self, i, key, msg):
        if not self.quiet:
            self.cl.bad(i, key, msg)

    def enter(self, st, b, frm):
        new = {}
        for p in b.phis:
            for v, pb in p.incoming:
                if pb is frm:
                    new[p] = self.val(st, v)
        st.env.update(new)

    def go(self, b, frm, st, open_, L=None):
        """explore from block b; with L given, one turn of loop L from its header (other exits are dropped)"""
        work = [(b, frm, st, {}, L is None, open_)]
        visited = set()
        while work:
            b, frm, st, seen, fresh, op = work.pop()
            if frm is not None:
                self.enter(st, b, frm)
            Lb = self.loops.get(b) if fresh else None
            if Lb is not None and b not in self.skips:
                pk = (b, self.part(Lb, st))
                if frm is not None and pk in op and frm in Lb.blocks:
                    op[pk](st)
                    continue
                if b in self.cuts:
                    st = self.cut(Lb, b, st, op, pk)
                    op = dict(op)
                    op[pk] = lambda s: None
                elif frm in Lb.blocks:
                    k = seen.get(b, 0) + 1
                    if k > 80:
                        raise NewCut(b)
                    seen = dict(seen)
                    seen[b] = k
            for x, s2 in self.flow(b, st, op):
                if L is None or x in L.blocks:
                    if len(x.preds) > 1 and self.again(x, b, s2, seen, op, visited):
                        continue
                    work.append((x, b, s2, seen, True, op))

    def again(self, x, frm, st, seen, op, visited):
        return False

    def part(self, L, st):
        """what distinguishes the entries of a loop that are analysed separately"""
        return None

    def flow(self, b, st, open_):
        """execute block b; [(successor, state)]"""
        states = [st]
        for i in b.insts:
            if i.op == "phi":
                continue
            if i is b.term:
                break
            self.steps += 1
            if self.steps > self.MAXSTEP:
                raise Undecided("too many steps")
            states = [t for s in states for t in self.inst(s, i)]
        t = b.term
        out = []
        for s in states:
            if b in self.skips:
                out.append(self.jump(b, s))
            elif t.op == "ret":
                self.paths += 1
                if self.paths > 3000:
                    raise Undecided("too many paths")
                self.cl.ret(self, s, t)
            elif t.op == "br" and len(t.targets) == 2 and t.targets[0] is not t.targets[1]:
                c = self.cond(s, t.ops[0])
                kk = []
                for truth in (True, False):
                    for s2 in self.assume(s.copy(), c, truth):
                        kk.append((t.targets[0 if truth else 1], s2))
                if len(kk) > 1 and not (c[0] == "i"):
                    for h, L in self.loops.items():
                        if h not in self.cuts and h not in self.skips and b in L.blocks and \
                                any(x not in L.blocks for x, _ in kk) and any(x in L.blocks for x, _ in kk):
                            raise NewCut(h)
                out += kk
            elif t.op == "br":
                out.append((t.targets[0], s))
            elif t.op == "switch":
                v = self.val(s, t.ops[0])
                f = self.scrutinee(s, t.ops[0])
                if f is None:
                    for x in [t.targets[0]] + [tb for _, tb in t.cases]:
                        out.append((x, s.copy()))
                    continue
                live = [s.copy()]
                for cv, tb in t.cases:
                    cv = cv.val if hasattr(cv, "val") else cv
                    for s2 in self.assume(s.copy(), ("cmp", "eq", f, const(cv)), True):
                        out.append((tb, s2))
                    live = [z for y in live for z in self.assume(y, ("cmp", "eq", f, const(cv)), False)]
                for y in live:
                    out.append((t.targets[0], y))
            elif t.op == "unreachable":
                pass
            else:
                raise Undecided("terminator " + t.op)
        return out

    def scrutinee(self, st, v):
        return self.exact(st, self.num(st, v), width(v.type))

    def jump(self, b, st):
        raise Undecided("skip")

    # ---- loops --------------------------------------------------------------------
    def variables(self, L, h, st):
        """(name, form) of what may vary from one turn to the next"""
        out = []
        for p in h.phis:
            v = st.env.get(p)
            if v is None:
                continue
            if v[0] == "i":
                out.append((p, v[1]))
            elif v[0] == "p":
                out.append((p, v[2]))
            else:
                raise Undecided("loop variable")
        for k in self.cl.slots(self, L, st):
            out.append((k, st.mem[k][1][1]))
        for k in sorted(st.g):
            if isinstance(st.g[k], dict):
                out.append((k, st.g[k]))
        return out

    def cut(self, L, h, st, open_, pk):
        """havoc the loop variables at header h, keep the relations every turn preserves; returns the header state"""
        ent = self.variables(L, h, st)
        names = [n for n, _ in ent]
        hst = st.copy()
        hv = []
        for n, f in ent:
            a = atom(self.fresh("v"))
            hv.append(a)
            if n in hst.env:
                o = hst.env[n]
                hst.env[n] = ("i", a) if o[0] == "i" else ("p", o[1], a)
                if o[0] == "i" and not self.SIGNED:
                    hst.facts.append(a)
                    if width(n.type) < 64:
                        hst.facts.append(add(const((1 << width(n.type)) - 1), a, -1))
            elif n in hst.mem:
                hst.mem[n] = (hst.mem[n][0], ("i", a))
                if not self.SIGNED:
                    hst.facts += [a, add(const((1 << 32) - 1), a, -1)]
            else:
                hst.g[n] = a
        self.cl.havoc(self, L, hst, st)
        modes = self.modes(L, h, st, hst)
        cands = []
        ev = [f for _, f in ent]
        for x in range(len(ev)):
            cands.append(("eq", lambda v, x=x: v[x]))
            cands.append(("ge", lambda v, x=x: v[x]))
            cands.append(("ge", lambda v, x=x: scale(v[x], -1)))
            for y in range(len(ev)):
                if y != x:
                    cands += [("eq", lambda v, x=x, y=y, k=k: add(v[x], v[y], k))
                              for k in self.MULT if abs(k) > 1 or x < y]
        inv = []
        for kind, f in cands:
            inv.append((kind, add(f(hv), f(ev), -1), f, ev))
        for kind, f in self.cl.bounds(self, names):
            if all(ln.prove(st.facts, g) for g in [f(ev)]):
                inv.append((kind, f(hv), f, None))
        for B in self.limits(L, st):
            for x in range(len(ev)):
                for f in (lambda v, x=x: add(v[x], B, -1), lambda v, x=x: add(B, v[x], -1),
                          lambda v, x=x: add(add(B, v[x], -1), const(-1))):
                    if ln.prove(st.facts, f(ev)):
                        inv.append(("ge", f(hv), f, None))
        self.quiet += 1
        probe = True
        turns = [0]
        while True:
            keep = [True] * len(inv)
            self.cl.newturns()

            def back(s, inv=inv, keep=keep):
                turns[0] += 1
                self.cl.settle(self, s, h)
                self.turned(modes, hst, s)
                now = []
                for n in names:
                    if n in s.env and n in hst.env:
                        v = s.env[n]
                        if v[0] not in ("i", "p"):
                            if not self.SIGNED:
                                raise Undecided("loop variable")
                            v = ("i", atom(self.fresh("x")))
                        now.append(v[1] if v[0] == "i" else v[2])
                    elif n in hst.mem:
                        v = s.mem[n][1]
                        if v[0] != "i":
                            raise Undecided("loop field")
                        now.append(v[1])
                    else:
                        now.append(s.g[n])
                eqs = [] if probe and not self.SIGNED else equalities(s.facts)
                for k, (kind, _, f, e0) in enumerate(inv):
                    if keep[k]:
                        g = f(now)
                        if probe and not self.SIGNED:
                            # only drop what cannot be an invariant: a turn changes it by a nonzero constant
                            d = add(g, f(hv), -1)
                            if kind == "eq" and is_const(d) and d:
                                keep[k] = False
                            continue
                        if e0 is not None:
                            g = add(g, f(e0), -1)
                        if kind == "eq":
                            if not independent(eqs, g, False):
                                continue
                            if self.SIGNED or not ln.prove0(s.facts, g):
                                keep[k] = False
                        elif not ln.prove(s.facts, g):
                            keep[k] = False
            t = hst.copy()
            if probe and self.SIGNED:                # first turn: from the entry state itself
                self.put(t, names, ev)
            basis = []
            known = [] if probe else self.solve(t, inv, names, hv) if self.SIGNED else inv
            for kind, g, f, e0 in known:
                if kind == "eq":
                    if not independent(basis, g):
                        continue
                    t.facts.append(scale(g, -1))
                t.facts.append(g)
            t.facts = self.simplify(t.facts)
            o2 = dict(open_)
            o2[pk] = back
            try:
                self.body(L, h, t.copy(), o2)
            except Undecided:
                if not probe:
                    raise
                turns[0] += 1
            if not turns[0]:
                self.quiet -= 1
                return st                            # no turn comes back
            if all(keep) and not probe and not self.remode(modes, hst, st):
                break
            probe = False
            inv = [x for x, k in zip(inv, keep) if k]
        self.quiet -= 1
        return t

    def put(self, t, names, forms):
        for n, f in zip(names, forms):
            if n in t.env:
                t.env[n] = (t.env[n][0], f) if t.env[n][0] == "i" else ("p", t.env[n][1], f)
            elif n in t.mem:
                t.mem[n] = (t.mem[n][0], ("i", f))
            else:
                t.g[n] = f

    def solve(self, t, inv, names, hv):
        """replace in the header state the variables that the equalities among inv determine"""
        mine = [next(iter(a)) for a in hv]
        sub = {}
        for kind, g, f, e0 in inv:
            if kind != "eq":
                continue
            g = apply(g, sub)
            x = next((x for x in mine if abs(g.get(x, 0)) == 1), None)
            if x is None:
                continue
            s = scale({y: c for y, c in g.items() if y != x}, -g[x])
            sub = {y: apply(e, {x: s}) for y, e in sub.items()}
            sub[x] = s
        self.put(t, names, [apply(a, sub) for a in hv])
        for k, (n, v) in list(t.mem.items()):
            if v[0] == "i":
                t.mem[k] = (n, ("i", apply(v[1], sub)))
        return [(kind, apply(g, sub), f, e0) for kind, g, f, e0 in inv]

    # pointers (and other symbolic facts) that may designate something else on the next turn: refined by subclasses
    def modes(self, L, h, st, hst):
        return None

    def turned(self, modes, hst, s):
        pass

    def remode(self, modes, hst, st):
        return False

    def limits(self, L, st):
        """what the conditions of the loop compare with: constants and values from outside"""
        out = []
        for b in sorted(L.blocks, key=lambda b: b.name or ""):
            for i in b.insts:
                if i.op == "icmp":
                    for o in i.ops:
                        f = None
                        if o.kind == "int":
                            f = const(o.val)
                        elif o in st.env and (o.kind == "arg" or o.block not in L.blocks) and st.env[o][0] in ("i", "p"):
                            f = st.env[o][1 if st.env[o][0] == "i" else 2]
                        if f is not None and f not in out:
                            out.append(f)
        return out

    def simplify(self, facts):
        out, seen = [], set()
        for f in facts:
            if is_const(f):
                continue
            k = ln.key(f)
            if k not in seen:
                seen.add(k)
                out.append(f)
        return out

    def body(self, L, h, st, open_):
        """run one turn of the loop, from the header"""
        keep, self.cl.ret = self.cl.ret, lambda *a: None
        try:
            self.go(h, None, st, open_, L)
        finally:
            self.cl.ret = keep


def equalities(facts):
    """echelon form of the equalities among the facts"""
    seen, basis = set(), []
    for f in facts:
        seen.add(frozenset(f.items()))
        if frozenset((x, -c) for x, c in f.items()) in seen:
            independent(basis, f)
    return basis


def apply(g, sub):
    out = {}
    for x, c in g.items():
        out = add(out, sub[x], c) if x in sub else add(out, {x: c})
    return out


def independent(basis, g, grow=True):
    """is the equality g = 0 not a consequence of those in basis (an echelon form it is then added to)?"""
    g = {x: Fraction(c) for x, c in g.items() if c}
    for x, row in basis:
        c = g.get(x)
        if c:
            for y, d in row.items():
                e = g.get(y, 0) - c * d
                if e:
                    g[y] = e
                else:
                    g.pop(y, None)
    x = next((y for y in g if y != 1), None)
    if x is None:
        return bool(g)
    if grow:
        basis.append((x, {y: d / g[x] for y, d in g.items()}))
    return True


class NewCut(Exception):
    def __init__(self, h):
        self.h = h
