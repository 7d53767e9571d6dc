"""P22: the digest attached to a matrix covers every line the loader reads, in order, exactly once."""
from common import *
import linear as ln
from linear import add, scale, const, atom, is_const, cval
import shabuf
from shabuf import Exec, State, Undecided, NewCut, field_off, sizeof
import cfg
import esp
import pts
import p12
from sym import Sym
from words import Words, sha256

CTX = "%struct.spasm_sha256_ctx"
PASSES = (b"globaldce,always-inline,globaldce,function(sroa,early-cse,loop-simplify,lcssa,loop(loop-rotate),"
          b"loop(loop-idiom),sroa,early-cse,dce,loop-simplify)")
PLAIN = b"globaldce,always-inline,globaldce,function(sroa,early-cse,dce,loop-simplify)"
HASHFNS = ("spasm_SHA256_init", "spasm_SHA256_update", "spasm_SHA256_final")
M32 = (1 << 32) - 1


def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def iroot(n, k):
    lo, hi = 0, 1
    while hi ** k <= n:
        hi *= 2
    while lo < hi:
        m = (lo + hi + 1) // 2
        if m ** k <= n:
            lo = m
        else:
            hi = m - 1
    return lo


# FIPS 180-4: fractional parts of the square (cube) roots of the first primes
IV = [iroot(p << 64, 2) & M32 for p in primes(8)]
K = [iroot(p << 96, 3) & M32 for p in primes(64)]


def block_function(b):
    """the compression function: the defined function both update and final reach and that uses the round constants"""
    M = b.lib(keep=None if False else set(HASHFNS), passes=b"globaldce", raw=True) if False else b.lib(keep=_All(), passes=b"globaldce")
    tabs = set()
    for n, g in M.globals.items():
        v = getattr(g, "init", None)
        if v is not None and v.kind == "agg" and v.ops and len(v.ops) in (64, 16, 80):
            if v.ops[0].kind == "int" and (v.ops[0].val & M32) == K[0]:
                tabs.add(g)

    def callees(fn):
        return {i.callee_name() for x in fn.blocks for i in x.insts if i.op == "call"} - {None}

    def reach(n):
        out, todo = set(), [n]
        while todo:
            f = M.functions.get(todo.pop())
            if f is None or f.decl or f.name in out:
                continue
            out.add(f.name)
            todo += callees(f)
        return out
    both = reach("spasm_SHA256_update") & reach("spasm_SHA256_final")
    cand = []
    for n in sorted(both):
        fn = M.functions[n]
        if any(uses(o, tabs) for x in fn.blocks for i in x.insts for o in i.ops) or big(fn):
            cand.append(n)
    # a helper of another candidate is inlined into it
    top = [n for n in cand if not any(m != n and n in reach(m) for m in cand)]
    return top, M


def uses(v, tabs):
    if v in tabs:
        return True
    return v.kind == "cexpr" and any(uses(o, tabs) for o in v.ops or ())


def big(fn):
    k = sum(1 for x in fn.blocks for i in x.insts for o in i.ops if o.kind == "int" and (o.val & M32) in K[4:])
    return k >= 20


class _All:
    def __contains__(self, n):
        return True


class Base:
    """memory of the hash context; subclasses give the meaning of buffer traffic"""

    def __init__(self, ex_name, rep, block, M):
        self.rep, self.block, self.M, self.name = rep, block, M, ex_name
        self.msgs = {}
        self.off = {k: field_off(M, CTX, k)[0] for k in range(6)}
        self.lo, self.hi = self.off[3], self.off[3] + 64
        self.nret = 0
        self.nblock = 0
        self.nwrite = 0

    def restart(self):
        self.msgs.clear()
        self.nret = self.nblock = self.nwrite = 0

    def bad(self, i, key, msg):
        self.msgs.setdefault((key, i.loc), msg)

    def start(self, fn):
        st = State()
        for a in fn.args:
            st.env[a] = ("u",)
        for nm, k in (("Nl", 1), ("Nh", 2), ("num", 4)):
            f = atom(nm + "0")
            st.mem[("ctx", self.off[k])] = (4, ("i", f))
            st.facts += [f, add(const(M32), f, -1)]
        st.facts.append(add(const(63), atom("num0"), -1))
        st.mem[("ctx", self.off[5])] = (4, ("i", const(32)))
        self.hwords(st)
        return st

    def hwords(self, st):
        st.gen += 1
        for i in range(8):
            f = atom(("h", st.gen, i))
            st.mem[("ctx", 4 * i)] = (4, ("i", f))
            st.facts += [f, add(const(M32), f, -1)]

    def newturns(self):
        pass

    def settle(self, ex, st, where):
        pass

    def slot(self, k):
        return ("ctx", self.off[k])

    # memory
    def load(self, ex, st, i, p, n):
        if p[1] == "ctx" and is_const(p[2]):
            v = st.mem.get(("ctx", cval(p[2])))
            if v and v[0] == n:
                return v[1]
            if n == 8 and st.mem.get(("ctx", cval(p[2]))) and st.mem.get(("ctx", cval(p[2]) + 4)):
                a, b = st.mem[("ctx", cval(p[2]))], st.mem[("ctx", cval(p[2]) + 4)]
                if a[1][0] == b[1][0] == "i":
                    return ("i", add(ex.exact(st, a[1][1], 32), ex.exact(st, b[1][1], 32), 1 << 32))
        return ("u",)

    def inbuf(self, st, off):
        """offset inside the block buffer, or None when it is certainly outside"""
        if is_const(off):
            return add(off, const(-self.lo)) if self.lo <= cval(off) < self.hi else None
        if ln.prove(st.facts, add(off, const(-self.lo))):
            return add(off, const(-self.lo))
        raise Undecided("offset in the context")

    def store(self, ex, st, i, p, v, n):
        if p[1] == "ctx":
            o = self.inbuf(st, p[2])
            if o is None:
                self.field(ex, st, i, cval(p[2]), v, n)
            else:
                for k, w in self.split(ex, st, v, n):
                    self.put(ex, st, i, add(o, const(k)), const(1), w)
        elif p[1] == "md":
            for k, w in self.split(ex, st, v, n):
                st.g[("md", cval(add(p[2], const(k))))] = ("byte", w)
        elif p[1] == "in":
            ex.bad(i, "input", "the data being hashed is modified")

    def field(self, ex, st, i, off, v, n):
        if off < self.lo and off < 32 and self.name != "spasm_SHA256_init":
            ex.bad(i, "state", "the chaining value is modified outside the compression function")
        if n == 8 and v[0] == "i":
            st.mem[("ctx", off)] = (4, v)
            st.mem[("ctx", off + 4)] = (4, ("i", ex.q(st, ex.exact(st, v[1], 64), 32)))
        else:
            st.mem[("ctx", off)] = (n, v)

    def split(self, ex, st, v, n):
        """[(offset, value of the byte)]"""
        if v[0] == "i":
            f = v[1]
            if n > 1:
                f = ex.exact(st, f, 8 * n)
            return [(k, ("v", ex.q(st, f, 8 * k))) for k in range(n)]
        if v[0] == "bs":
            f = ex.exact(st, v[1], 8 * v[2])
            return [(k, ("v", ex.q(st, f, 8 * (n - 1 - k)))) for k in range(n)]
        if v[0] == "byte":
            return [(0, ("in", v[1]))]
        return [(k, ("?",)) for k in range(n)]

    def set(self, ex, st, i, d, v, k):
        if d[1] == "ctx":
            if is_const(d[2]) and is_const(k):
                lo, hi = cval(d[2]), cval(d[2]) + cval(k)
                for s in list(st.mem):
                    if s[0] == "ctx" and lo <= s[1] and s[1] + st.mem[s][0] <= hi:
                        if s[1] < 32 and self.name != "spasm_SHA256_init":
                            ex.bad(i, "state", "the chaining value is modified outside the compression function")
                        st.mem[s] = (st.mem[s][0], ("i", const(0) if cval(v) == 0 else atom(ex.fresh("set"))))
                a, b = max(lo, self.lo), min(hi, self.hi)
                if a < b:
                    self.put(ex, st, i, const(a - self.lo), const(b - a), ("v", v))
                return
            o = self.inbuf(st, d[2])
            if o is None:
                raise Undecided("memset")
            self.put(ex, st, i, o, k, ("v", v))
        elif d[1] == "in":
            ex.bad(i, "input", "the data being hashed is modified")

    def copy(self, ex, st, i, d, s, k):
        if d[1] == "ctx":
            o = self.inbuf(st, d[2])
            if o is None:
                if isinstance(s[1], tuple) and is_const(k) and is_const(d[2]):
                    for (b, of), (n, v) in list(st.mem.items()):
                        if b == s[1] and of < cval(k):
                            self.field(ex, st, i, cval(d[2]) + of, v, n)
                    return
                raise Undecided("copy into the context")
            if s[1] == "in":
                self.put(ex, st, i, o, k, ("msg", s[2]))
            elif isinstance(s[1], tuple) and is_const(k):
                for j in range(cval(k)):
                    w = None
                    for (b, of), (n, v) in st.mem.items():
                        if b == s[1] and of <= j < of + n:
                            w = self.split(ex, st, v, n)[j - of][1]
                    self.put(ex, st, i, add(o, const(j)), const(1), w or ("?",))
            else:
                self.put(ex, st, i, o, k, ("?",))
        elif d[1] == "md":
            if is_const(k) and is_const(d[2]):
                for j in range(cval(k)):
                    w = ("?",)
                    if isinstance(s[1], tuple):
                        for (b, of), (n, v) in st.mem.items():
                            if b == s[1] and of <= j < of + n:
                                w = self.split(ex, st, v, n)[j - of][1]
                    st.g[("md", cval(d[2]) + j)] = ("byte", w)
        elif isinstance(d[1], tuple):
            if s[1] == "ctx" and is_const(k) and is_const(s[2]):
                for (b, of), nv in list(st.mem.items()):
                    if b == "ctx" and cval(s[2]) <= of < cval(s[2]) + cval(k):
                        st.mem[(d[1], cval(d[2]) + of - cval(s[2]))] = nv

    def slots(self, ex, L, st):
        """stored fields a loop may change"""
        out = []
        for b in L.blocks:
            for i in b.insts:
                if i.op == "store":
                    p = i.ops[1]
                    while p.kind == "inst" and p.op in ("gep", "bitcast"):
                        if p.op == "gep" and p.srctype == CTX and len(p.ops) == 3:
                            k = p.ops[2].val
                            if k in (1, 2, 4):
                                out.append(self.slot(k))
                        p = p.ops[0]
                elif i.op == "call" and i.callee_name() in self.block:
                    pass
        return sorted(set(out))

    def havoc(self, ex, L, st, old=None):
        self.hwords(st)

    def bounds(self, ex, names):
        return []

    def call(self, ex, st, i, n):
        if n in self.block:
            ptr = count = None
            for o in i.ops[:len(i.ops)]:
                if o.kind == "func":
                    continue
                v = ex.val(st, o)
                if v[0] == "p":
                    if v[1] == "ctx" and is_const(v[2]) and cval(v[2]) == 0:
                        continue
                    ptr = v
                elif v[0] == "i":
                    count = ex.exact(st, v[1], 64)
            if ptr is None:
                raise Undecided("arguments of the compression function")
            self.nblock += 1
            self.compress(ex, st, i, ptr, const(1) if count is None else count)
            self.hwords(st)
            return [st]
        if n in ("__assert_fail", "abort", "exit", "err", "errx"):
            return []
        if n == "memcpy" or n == "":
            raise Undecided("call")
        return None


class Update(Base):
    def bounds(self, ex, names):
        n = {str(x): k for k, x in enumerate(names)}
        out = []
        if "phi" in n:
            out += [("ge", lambda v, a=n["phi"], c=c: add(const(c), v[a], -1)) for c in (0, 63, 64)]
            out += [("ge", lambda v, a=n["phi"]: v[a])]
        if "s" in n:
            out.append(("ge", lambda v, a=n["s"]: add(atom("len"), v[a], -1)))
        for k, x in enumerate(names):
            out.append(("ge", lambda v, k=k: add(atom("len"), v[k], -1)))
            out.append(("ge", lambda v, k=k: v[k]))
        return out

    def load(self, ex, st, i, p, n):
        if p[1] == "in" and n == 1:
            return ("byte", p[2])
        return Base.load(self, ex, st, i, p, n)

    def put(self, ex, st, i, o, k, w):
        """bytes [o, o+k) of the buffer receive w"""
        if ln.prove0(st.facts, k):
            return
        if w[0] == "in":
            w = ("msg", w[1])
        phi, s = st.g["phi"], st.g["s"]
        P = lambda f: ln.prove(st.facts, f, True)
        if w[0] == "msg":
            self.nwrite += 1
            if not ln.prove0(st.facts, add(w[1], s, -1)) and not self.dead(st):
                ex.bad(i, "order", "bytes are copied into the block buffer that are not the next ones of the input")
            elif not ln.prove0(st.facts, add(o, phi, -1)) and not self.dead(st):
                ex.bad(i, "place", "input bytes are not stored right after the bytes already waiting in the buffer")
            elif not P(add(const(64), add(o, k), -1)):
                ex.bad(i, "overflow", "more bytes are copied than the block buffer can hold")
            elif not P(add(add(atom("len"), s, -1), k, -1)):
                ex.bad(i, "beyond", "bytes beyond the end of the input are copied")
            st.g["phi"] = add(phi, k)
            st.g["s"] = add(s, k)
        elif not P(add(o, phi, -1)):
            ex.bad(i, "clobber", "bytes waiting in the block buffer are overwritten")

    def dead(self, st):
        return ln.infeasible(st.facts)

    def compress(self, ex, st, i, ptr, q):
        phi, s = st.g["phi"], st.g["s"]
        if ptr[1] == "ctx":
            o = self.inbuf(st, ptr[2])
            if o is None or not is_const(o) or cval(o) != 0 or not (is_const(q) and cval(q) == 1):
                ex.bad(i, "block", "the compression function is not applied to exactly the block buffer")
            elif not ln.prove0(st.facts, add(phi, const(-64))) and not self.dead(st):
                ex.bad(i, "block", "the block buffer is compressed when it does not hold exactly 64 bytes of input")
            st.g["phi"] = {}
        elif ptr[1] == "in":
            if not ln.prove0(st.facts, phi) and not self.dead(st):
                ex.bad(i, "skip", "input is compressed directly while earlier bytes are still waiting in the buffer")
            elif not ln.prove0(st.facts, add(ptr[2], s, -1)) and not self.dead(st):
                ex.bad(i, "order", "the compression function is applied to bytes that are not the next ones of the input")
            elif not ln.prove(st.facts, add(add(atom("len"), s, -1), q, -64), True):
                ex.bad(i, "beyond", "bytes beyond the end of the input are compressed")
            st.g["s"] = add(s, q, 64)
        else:
            ex.bad(i, "block", "the compression function is applied to something that is neither the input nor the buffer")

    def ret(self, ex, st, t):
        self.nret += 1
        if self.dead(st):
            return
        phi, s = st.g["phi"], st.g["s"]
        if not ln.prove0(st.facts, add(s, atom("len"), -1)):
            ex.bad(t, "lost", "some bytes of the input are neither compressed nor kept in the buffer")
        num = st.mem[self.slot(4)][1]
        if num[0] != "i" or not ln.prove0(st.facts, add(ex.exact(st, num[1], 32), phi, -1)):
            ex.bad(t, "num", "the stored number of waiting bytes is not the number of bytes waiting in the buffer")
        if not ln.prove(st.facts, add(const(63), phi, -1)) or not ln.prove(st.facts, phi):
            ex.bad(t, "full", "the function may return with a full block waiting in the buffer")
        nl, nh = st.mem[self.slot(1)][1], st.mem[self.slot(2)][1]
        tot = add(atom("Nl0"), atom("len"), 8)
        if nl[0] != "i" or not self.same(st, add(nl[1], tot, -1)):
            ex.bad(t, "length", "the low word of the bit count is not advanced by 8 times the number of bytes")
            return
        qq = ex.q(st, tot, 32)
        if nh[0] != "i" or not self.same(st, add(add(nh[1], atom("Nh0"), -1), qq, -1)):
            ex.bad(t, "length", "the high word of the bit count does not receive the bits carried out of the low word")

    def same(self, st, d):
        d = ln.modred(d, 32)
        return not d or ln.prove0(st.facts, d)


class Final(Base):
    """content of the buffer: the message prefix [0, num0), then what was written, in program order"""

    def put(self, ex, st, i, o, k, w):
        if ln.prove0(st.facts, k):
            return
        self.nwrite += 1
        if not ln.prove(st.facts, add(const(64), add(o, k), -1), True):
            ex.bad(i, "overflow", "the padding is written past the end of the block buffer")
        st.writes = st.writes + [(o, k, w)]

    def compress(self, ex, st, i, ptr, q):
        if ptr[1] != "ctx" or self.inbuf(st, ptr[2]) != {} or not (is_const(q) and cval(q) == 1):
            ex.bad(i, "block", "the compression function is not applied to exactly the block buffer")
            return
        st.g["blocks"] = st.g["blocks"] + ((i, tuple(st.writes)),)

    def ret(self, ex, st, t):
        self.nret += 1
        if ln.infeasible(st.facts):
            return
        bl = st.g["blocks"]
        num = atom("num0")
        if len(bl) == 1:
            if not ln.prove(st.facts, add(const(55), num, -1)):
                ex.bad(bl[0][0], "room", "the padding and the length may not fit in the single last block")
            else:
                self.content(ex, st, bl[0], num, True, True)
        elif len(bl) == 2:
            if not ln.prove(st.facts, add(num, const(-56))):
                ex.bad(bl[0][0], "extra", "an extra padding block is compressed although the length fits in this one")
            else:
                self.content(ex, st, bl[0], num, True, False)
                self.content(ex, st, bl[1], {}, False, True)
        else:
            ex.bad(t, "blocks", "finishing the hash compresses %d blocks" % len(bl))
        for j in range(32):
            v = st.g.get(("md", j))
            h = atom(("h", st.g["last"], j // 4)) if "last" in st.g else atom(("h", st.gen, j // 4))
            want = ex.q(st, h, 24 - 8 * (j % 4))
            if v is None or v[0] != "byte" or v[1][0] != "v" or ln.modred(add(v[1][1], want, -1), 8):
                ex.bad(t, "digest", "byte %d of the digest is not the corresponding byte of the chaining value" % j)
                break

    def content(self, ex, st, blk, pos, mark, last):
        i, writes = blk
        msg = atom("num0") if mark else {}
        for (o, k, w) in writes:
            if mark and not ln.prove(st.facts, add(o, msg, -1), True):
                ex.bad(i, "clobber", "bytes of the message waiting in the buffer are overwritten")
                return
        self.walk(ex, st.copy(), i, writes, pos, mark, last, 0)

    def expect(self, st, k):
        """byte k (0..7) of the big-endian bit count"""
        return atom("Nh0") if k < 4 else atom("Nl0")

    def walk(self, ex, st, i, writes, pos, mark, last, depth):
        if depth > 60:
            raise Undecided("padding")
        st.facts = list(st.facts)
        P = lambda f: ln.prove(st.facts, f)
        if ln.infeasible(st.facts):
            return
        if P(add(pos, const(-64))):
            return
        two = (self.walk, ex, i, writes, pos, mark, last, depth)
        if not P(add(const(63), pos, -1)):
            return self.splitcase(st, two, add(const(63), pos, -1))
        for n in range(len(writes) - 1, -1, -1):
            o, k, w = writes[n]
            a = add(pos, o, -1)                                # o <= pos
            b = add(add(add(o, k), pos, -1), const(-1))        # pos < o + k
            for f in (a, b):
                if P(f):
                    continue
                if P(add(scale(f, -1), const(-1))):
                    break
                return self.splitcase(st, two, f)
            else:
                end = add(o, k)
                for o2, k2, w2 in writes[n + 1:]:
                    f = add(add(o2, pos, -1), const(-1))       # o2 > pos
                    if P(f):
                        g = add(o2, end, -1)                   # o2 >= end
                        if P(g):
                            continue
                        if P(add(scale(g, -1), const(-1))):
                            end = o2
                            continue
                        return self.splitcase(st, two, g)
                return self.segment(ex, st, i, writes, pos, end, w, mark, last, depth)
        ex.bad(i, "stale", "a byte of the padding is not written before the block is compressed")

    def splitcase(self, st, two, f):
        fn, ex, i, writes, pos, mark, last, depth = two
        for g in (f, add(scale(f, -1), const(-1))):
            s = st.copy()
            s.facts.append(g)
            fn(ex, s, i, writes, pos, mark, last, depth + 1)

    def segment(self, ex, st, i, writes, pos, end, w, mark, last, depth):
        """bytes [pos, end) all hold w"""
        P = lambda f: ln.prove(st.facts, f)
        nxt = None
        if mark:
            if w[0] != "v" or ln.modred(add(w[1], const(-0x80)), 8):
                ex.bad(i, "mark", "the byte after the message is not 0x80")
                return
            nxt = add(pos, const(1))
        else:
            z = add(const(56), pos, -1)
            if last and not P(add(z, const(-1))):
                if not (is_const(pos)):
                    # resolve the position by cases
                    for c in range(56, 64):
                        if ln.prove0(st.facts, add(pos, const(-c))):
                            pos = const(c)
                            break
                    else:
                        return self.splitcase(st, (self.walk, ex, i, writes, pos, mark, last, depth), add(z, const(-1))) \
                            if not P(scale(z, -1)) else self.cases(ex, st, i, writes, pos, mark, last, depth)
                c = cval(pos)
                if 56 <= c < 64:
                    k = c - 56
                    sh = 8 * (3 - k % 4)
                    want = ex.q(st, self.expect(st, k), sh)
                    if w[0] != "v" or ln.modred(add(w[1], want, -1), 8):
                        ex.bad(i, "count", "byte %d of the last block is not the corresponding byte of the bit count" % c)
                        return
                    nxt = add(pos, const(1))
            if nxt is None:
                if w[0] != "v" or ln.modred(w[1], 8):
                    ex.bad(i, "zero", "the padding between the mark and the length is not zero")
                    return
                nxt = end
                if last:
                    g = add(const(56), end, -1)                  # end <= 56
                    if not P(g):
                        if P(scale(g, -1)):
                            nxt = const(56)
                        else:
                            return self.splitcase(st, (self.walk, ex, i, writes, pos, mark, last, depth), g)
        self.walk(ex, st, i, writes, nxt, False, last, depth + 1)

    def cases(self, ex, st, i, writes, pos, mark, last, depth):
        for c in range(56, 64):
            s = st.copy()
            d = add(pos, const(-c))
            s.facts += [d, scale(d, -1)]
            if not ln.infeasible(s.facts):
                self.walk(ex, s, i, writes, const(c), mark, last, depth + 1)


class Init(Base):
    def put(self, ex, st, i, o, k, w):
        pass

    def compress(self, ex, st, i, ptr, q):
        ex.bad(i, "block", "initialisation compresses a block")

    def ret(self, ex, st, t):
        self.nret += 1
        for k, nm in ((1, "low word of the bit count"), (2, "high word of the bit count"), (4, "number of waiting bytes")):
            v = st.mem[self.slot(k)][1]
            if v[0] != "i" or ln.modred(v[1], 32):
                ex.bad(t, "fresh", "the %s is not reset" % nm)
        for k in range(8):
            v = st.mem[("ctx", 4 * k)][1]
            if v[0] != "i" or ln.modred(add(v[1], const(-IV[k])), 32):
                ex.bad(t, "iv", "word %d of the initial chaining value is not the one of SHA-256" % k)


class WordExec(Exec):
    """the compression function: words as canonical bitwise / modular forms"""

    def __init__(self, M, fn, client):
        Exec.__init__(self, M, fn, client)
        self.W = client.W

    def word(self, v, w):
        if v[0] == "w":
            return v[1]
        if v[0] == "i" and is_const(v[1]):
            return self.W.const(cval(v[1]), w)
        raise Undecided("word")

    def arith(self, st, i):
        a = self.val(st, i.ops[0])
        b = self.val(st, i.ops[1]) if len(i.ops) > 1 else None
        if a[0] != "w" and (b is None or b[0] != "w"):
            return Exec.arith(self, st, i)
        W, op, w = self.W, i.op, shabuf.width(i.type)
        if op in ("zext", "freeze"):
            return a
        if op == "trunc":
            return self.norm(W.trunc(a[1], w))
        if op in ("shl", "lshr"):
            if b[0] != "i" or not is_const(b[1]):
                raise Undecided("shift")
            k = cval(b[1])
            return self.norm(W.shift(self.word(a, w), k if op == "shl" else -k, w))
        x, y = self.word(a, w), self.word(b, w)
        if op == "and":
            return self.norm(W.and_(x, y))
        if op == "or":
            return self.norm(W.or_(x, y))
        if op == "xor":
            return self.norm(W.xor(x, y))
        if op == "add":
            return self.norm(W.add(x, y, w))
        if op == "sub":
            return self.norm(W.add(x, y, w, -1))
        raise Undecided("word operation " + op)

    def norm(self, x):
        if self.W.is_const(x):
            return ("i", const(self.W.cval(x)))
        return ("w", x)

    def load(self, st, i):
        p = self.val(st, i.ops[0])
        if p[0] == "p" and isinstance(p[1], tuple) and p[1][0] == "g" and is_const(p[2]):
            g = self.M.globals.get(p[1][1])
            v = getattr(g, "init", None)
            if v is not None and v.kind == "agg" and v.ops and g.const:
                n, o = sizeof(self.M, i.type), cval(p[2])
                e = sizeof(self.M, v.ops[0].type)
                if all(x.kind == "int" for x in v.ops) and o // e < len(v.ops) and o % e + n <= e:
                    return ("i", const((v.ops[o // e].val % (1 << 8 * e)) >> 8 * (o % e) & ((1 << 8 * n) - 1)))
            return ("u",)
        return Exec.load(self, st, i)

    def call(self, st, i):
        n = i.callee_name() or ""
        if n.startswith("llvm.fshl") or n.startswith("llvm.fshr"):
            w = shabuf.width(i.type)
            x, y = (self.word(self.val(st, o), w) for o in i.ops[:2])
            c = cval(self.num(st, i.ops[2])) % w
            if n.startswith("llvm.fshr"):
                c = (w - c) % w
                r = self.W.xor(self.W.shift(x, c, w), self.W.shift(y, c - w, w)) if c else y
            else:
                r = self.W.xor(self.W.shift(x, c, w), self.W.shift(y, c - w, w)) if c else x
            st.env[i] = self.norm(r)
            return [st]
        if n.startswith("llvm.bswap") or n in ("htonl", "ntohl"):
            v = self.val(st, i.ops[0])
            k = sizeof(self.M, i.type)
            st.env[i] = self.norm(self.W.bswap(self.word(v, 8 * k), k))
            return [st]
        return Exec.call(self, st, i)


class Compress:
    """one turn = one block: the chaining value becomes the FIPS 180-4 function of itself and the next 64 bytes"""

    def __init__(self, name, M, once):
        self.name, self.M = name, M
        self.W = Words()
        self.msgs = {}
        self.nret = self.nblock = 0
        self.once = once

    def restart(self):
        self.msgs.clear()
        self.nret = self.nblock = 0
        self.turnmsgs = {}

    def bad(self, i, key, msg):
        self.msgs.setdefault((key, i.loc), msg)

    def leaves(self, st):
        return [self.W.leaf(("h", st.gen, k), 32) for k in range(8)]

    def hwords(self, st):
        st.gen += 1
        for k, l in enumerate(self.leaves(st)):
            st.mem[("ctx", 4 * k)] = (4, ("w", l))

    def newturns(self):
        self.turnmsgs = {}

    def byte(self, st, off):
        d = add(off, st.g["done"], -64)
        c = cval(d)
        if not ln.prove0(st.facts, add(d, const(-c))):
            raise Undecided("position in the input")
        return c

    def load(self, ex, st, i, p, n):
        if p[1] == "ctx" and is_const(p[2]):
            v = st.mem.get(("ctx", cval(p[2])))
            return v[1] if v and v[0] == n else ("u",)
        if p[1] == "in":
            c = self.byte(st, p[2])
            x = {}
            for j in range(n):
                x = self.W.xor(x, self.W.shift(self.W.leaf(("b", st.gen, c + j), 8), 8 * j, 8 * n))
            return ("w", x)
        return ("u",)

    def store(self, ex, st, i, p, v, n):
        if p[1] == "ctx" and is_const(p[2]):
            if not 0 <= cval(p[2]) < 32:
                ex.bad(i, "field", "the compression function modifies another field of the context")
            st.mem[("ctx", cval(p[2]))] = (n, v)
        elif p[1] == "in":
            ex.bad(i, "input", "the data being hashed is modified")
        else:
            raise Undecided("store")

    def copy(self, ex, st, i, d, s, k):
        if isinstance(d[1], tuple) and is_const(k) and is_const(d[2]):
            for j in range(0, cval(k), 4):
                if s[1] == "in":
                    st.mem[(d[1], cval(d[2]) + j)] = (4, self.load(ex, st, i, ("p", "in", add(s[2], const(j))), 4))
                elif s[1] == "ctx" and is_const(s[2]):
                    st.mem[(d[1], cval(d[2]) + j)] = st.mem[("ctx", cval(s[2]) + j)]
            return
        raise Undecided("copy")

    def set(self, ex, st, i, d, v, k):
        raise Undecided("set")

    def slots(self, ex, L, st):
        return []

    def havoc(self, ex, L, st, old=None):
        for k in list(st.mem):
            if k[0] != "ctx":
                del st.mem[k]
        self.hwords(st)

    def bounds(self, ex, names):
        n = {str(x): k for k, x in enumerate(names)}
        return [("ge", lambda v: add(atom("num"), v[n["done"]], -1))] + \
            [("ge", lambda v, k=k: v[k]) for k in range(len(names))]

    def settle(self, ex, st, where):
        cur = [st.mem[("ctx", 4 * k)][1] for k in range(8)]
        old = self.leaves(st)
        if all(c[0] == "w" and c[1] == o for c, o in zip(cur, old)):
            return True
        want = sha256(self.W, old, lambda k: self.W.leaf(("b", st.gen, k), 8), K)
        for k in range(8):
            if cur[k][0] != "w" or cur[k][1] != want[k]:
                self.turnmsgs[("words", where.term.loc if hasattr(where, "term") else where.loc)] = \
                    "word %d of the new chaining value is not the one SHA-256 defines" % k
                break
        self.nblock += 1
        self.hwords(st)
        st.g["done"] = add(st.g["done"], const(1))
        return True

    def call(self, ex, st, i, n):
        if n in ("__assert_fail", "abort"):
            return []
        return None

    def ret(self, ex, st, t):
        self.nret += 1
        self.settle(ex, st, t)
        if not ln.infeasible(st.facts) and not ln.prove0(st.facts, add(st.g["done"], atom("num"), -1)):
            ex.bad(t, "blocks", "the number of blocks compressed is not the number asked for")


def compression(b, rep, block):
    rep.rule("compress", "every turn of the compression function replaces the chaining value by the FIPS 180-4 function of it "
             "and of the next 64 bytes, as many times as asked (canonical forms of the computed words)")
    M = b.lib(keep=set(block), passes=PLAIN)
    for name in block:
        fn = M.functions[name]
        cl = Compress(name, M, False)
        st = State()
        ptrs = [a for a in fn.args if a.type == "ptr"]
        if len(ptrs) != 2:
            rep.assumptions.append("%s: unfamiliar arguments, the compression function itself was not compared with FIPS 180-4" % name)
            continue
        st.env[ptrs[0]] = ("p", "ctx", {})
        st.env[ptrs[1]] = ("p", "in", {})
        ints = [a for a in fn.args if a.type != "ptr"]
        for a in ints:
            st.env[a] = ("i", atom("num"))
        st.facts += [atom("num"), add(const((1 << 55) - 1), atom("num"), -1)]
        if not ints:
            st.facts += [add(atom("num"), const(-1)), add(const(1), atom("num"), -1)]
        st.g["done"] = {}
        cl.hwords(st)
        cl.turnmsgs = {}
        ex = WordExec(M, fn, cl)
        ex.MAXSTEP = 400000
        try:
            ex.run(st)
        except Undecided as e:
            rep.assumptions.append("%s: not in a form that can be compared with FIPS 180-4 (%s)" % (name, e))
            continue
        for (k, loc), m in sorted(list(cl.msgs.items()) + list(cl.turnmsgs.items())):
            rep.bad("compress", "%s %s" % (name, loc), k, m)
        if not cl.msgs and not cl.turnmsgs:
            rep.ok("compress", name, "%d returns, %d block turns compared" % (cl.nret, cl.nblock))


def stream(b, rep):
    block, raw = block_function(b)
    if not block:
        raise Broken("the compression function was not found")
    M = b.lib(keep=set(HASHFNS) | set(block), passes=PASSES)
    rep.rule("update", "on every path of spasm_SHA256_update the input bytes reach the compression function or the buffer in "
             "order, exactly once; the buffer never overflows and is compressed exactly when full; num and the 64-bit bit "
             "count are advanced accordingly")
    rep.rule("final", "spasm_SHA256_final appends 0x80, zeros and the 64-bit big-endian bit count, in one or two blocks, and "
             "outputs the chaining value")
    rep.rule("init", "spasm_SHA256_init resets the counters and loads the initial chaining value")
    for name, cls, rule in (("spasm_SHA256_update", Update, "update"), ("spasm_SHA256_final", Final, "final"),
                            ("spasm_SHA256_init", Init, "init")):
        fn = M.functions.get(name)
        if fn is None or fn.decl:
            raise Broken(name + " not found")
        cl = cls(name, rep, set(block), M)
        st = cl.start(fn)
        roles(fn, st)
        st.g.update({"phi": atom("num0"), "s": {}} if name.endswith("update") else {"blocks": ()})
        if name.endswith("update"):
            st.facts += [atom("len"), add(const((1 << 61) - 1), atom("len"), -1)]
        if cls is Init:
            for k in list(st.mem):
                st.mem[k] = (st.mem[k][0], ("i", atom(("old",) + k)))
        ex = Exec(M, fn, cl)
        try:
            ex.run(st)
        except Undecided as e:
            rep.assumptions.append("%s: in a form the analysis cannot follow (%s); not decided" % (name, e))
            rep.ok(rule, name, "not decided: %s" % e)
            continue
        for (k, loc), m in sorted(cl.msgs.items()):
            rep.bad(rule, "%s %s" % (name, loc), k, m)
        if not cl.msgs:
            rep.ok(rule, name, "%d paths, %d buffer writes, %d blocks" % (cl.nret, cl.nwrite, cl.nblock))
        if not cl.nret:
            raise Broken(name + " never returns")
    return block


def roles(fn, st):
    for a in fn.args:
        if a.type != "ptr":
            st.env[a] = ("i", atom("len"))
    ptrs = [a for a in fn.args if a.type == "ptr"]
    if fn.name.endswith("update"):
        st.env[ptrs[0]] = ("p", "ctx", {})
        st.env[ptrs[1]] = ("p", "in", {})
    elif fn.name.endswith("final"):
        st.env[ptrs[0]] = ("p", "md", {})
        st.env[ptrs[1]] = ("p", "ctx", {})
    else:
        st.env[ptrs[0]] = ("p", "ctx", {})


READ = {"fgets": (0, 2), "getline": (0, 2), "getdelim": (0, 3), "fread": (0, 3), "fgetc": (None, 0), "getc": (None, 0),
        "fscanf": (None, 0), "__isoc99_fscanf": (None, 0), "__isoc23_fscanf": (None, 0), "fgetwc": (None, 0),
        "fgets_unlocked": (0, 2), "getc_unlocked": (None, 0), "_IO_getc": (None, 0), "scanf": (None, None),
        "__isoc99_scanf": (None, None), "getchar": (None, None), "gets": (0, None)}
BACK = {"fseek", "fseeko", "rewind", "ungetc", "fsetpos", "freopen", "lseek"}
PURE = {"strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "memchr", "strstr", "strspn",
        "strcspn", "strnlen", "sscanf", "__isoc99_sscanf", "__isoc23_sscanf", "strtol", "strtoll", "strtoul", "atoi", "atol",
        "atoll", "memcmp", "strtoimax", "__strtol_internal", "fprintf", "printf", "fputs", "puts", "warn", "warnx", "err", "errx",
        "spasm_SHA256_update", "write", "fwrite", "llvm.memcpy.p0.p0.i64", "snprintf", "strncpy", "strcpy", "memcpy",
        "__strtoll_internal"}


class Loader(p12.Base):
    """state: (context, line) with context 'raw' | 'open' | 'done' and line None | ('line', site, lengths) | 'eof'"""

    def __init__(self, rep, u, fn, S, hash_arg, file_arg):
        p12.Base.__init__(self, rep, u, fn, S, fn.name)
        self.hash, self.file = hash_arg, file_arg
        self.n = {"read": 0, "update": 0, "final": 0, "ret": 0}

    def init(self, e, env):
        return [("raw", None)]

    def arg(self, v):
        if v.type == "ptr":
            return ("p", frozenset([("arg", v.idx)]))
        return None

    def buffers(self, p):
        return {l[0] for l in self.u.of(p)}

    def same(self, a, b):
        return self.S.t(a) == self.S.t(b)

    def strip(self, t):
        while t[0] in ("zext", "sext", "trunc", "cast") or (t[0] == "op" and t[1] in ("zext", "sext", "trunc") and len(t) == 3):
            t = t[-1]
        return t

    def stream(self, i, k):
        return k is not None and k < len(i.ops)

    def inst(self, e, q, i, env):
        ctx, line = q
        if i.op == "icmp" and env.v.get(i) not in (esp.iv(0, 0), esp.iv(1, 1)) and any(x.op != "br" for x in i.uses):
            out = []
            for k in (1, 0):
                e1 = env.copy()
                if e.refine(e1, i, bool(k)):
                    out.append((q, e1))
            return out or [(q, env)]
        if i.op == "store" and line and line != "eof":
            if self.buffers(i.ops[1]) & self.buffers(line[1].ops[READ[line[1].callee_name()][0]]) and line[3]:
                self.say("loader", "modified", i, "the line just read is modified before it is hashed")
            return [(q, env)]
        if i.op != "call":
            return [(q, env)]
        n = i.callee_name()
        if n in READ:
            return self.read(e, q, i, env, n)
        if n in BACK:
            self.say("loader", "back", i, "%s moves the position in the input: what is hashed is no longer what was read" % n)
            return [(q, env)]
        if n in ("strlen", "strnlen") and line and line != "eof":
            b = line[1].ops[READ[line[1].callee_name()][0]]
            if self.same(i.ops[0], b) or i.ops[0] is line[1]:
                line = (line[0], line[1], line[2] | {i}, line[3])
            return [((ctx, line), env)]
        if n == "spasm_SHA256_init":
            if ctx != "raw" or (line and line != "eof" and not line[3]):
                self.say("loader", "reset", i, "the hash is started again after part of the input was hashed")
            return [(("open", line), env)]
        if n == "spasm_SHA256_update":
            self.n["update"] += 1
            return self.update(q, i, env)
        if n == "spasm_SHA256_final":
            self.n["final"] += 1
            if ctx == "raw":
                self.say("loader", "uninit", i, "the digest is produced without the hash being started")
            if ctx == "done":
                self.say("loader", "twice", i, "the digest is produced twice")
            if self.S.t(i.ops[0]) != self.S.t(self.hash):
                self.say("loader", "where", i, "the digest is not written where the caller asked for it")
            self.pending(line, i, "the digest is produced")
            if line != "eof":
                self.say("loader", "early", i, "the digest is produced before the end of the input was reached")
            return [(("done", line), env)]
        if line and line != "eof" and line[3] and n not in PURE:
            b = self.buffers(line[1].ops[READ[line[1].callee_name()][0]])
            for o in i.ops:
                if o.type == "ptr" and o.kind != "func" and self.buffers(o) & b:
                    self.say("loader", "modified", i, "the line just read may be modified by %s before it is hashed" % n)
        return [(q, env)]

    def pending(self, line, i, what):
        if line and line != "eof" and line[3]:
            self.say("loader", "unhashed", line[1], "%s (%s) while the data read here was not hashed" % (what, i.loc))

    def read(self, e, q, i, env, n):
        ctx, line = q
        self.n["read"] += 1
        self.pending(line, i, "more data is read")
        if ctx == "done":
            self.say("loader", "late", i, "data is read after the digest was produced")
        b, f = READ[n]
        if b is None:
            self.say("loader", "unhashed", i, "%s consumes input without keeping the bytes for the hash" % n)
            return [(q, env)]
        e1, e2 = env.copy(), env.copy()
        if n.startswith("fgets") or n == "gets":
            e.setv(e1, i, ("p", frozenset([("call", i.id)])))
            e.setv(e2, i, ("p", frozenset(["null"])))
            lens = frozenset()
        elif n == "fread":
            e.setv(e1, i, esp.iv(1, None))
            e.setv(e2, i, esp.iv(0, 0))
            lens = frozenset([i])
        else:
            e.setv(e1, i, esp.iv(1, None))
            e.setv(e2, i, esp.iv(-1, -1))
            lens = frozenset([i])
        return [((ctx, ("line", i, lens, True)), e1), ((ctx, "eof"), e2)]

    def update(self, q, i, env):
        ctx, line = q
        if ctx == "raw":
            self.say("loader", "uninit", i, "data is hashed before the hash is started")
        if ctx == "done":
            self.say("loader", "late", i, "data is hashed after the digest was produced")
        if not line or line == "eof":
            self.say("loader", "extra", i, "something that was not just read is added to the hash")
            return [(q, env)]
        site = line[1]
        if not line[3]:
            self.say("loader", "twice-line", i, "the data read at %s is hashed twice" % site.loc)
            return [(q, env)]
        if not self.same(i.ops[1], site.ops[READ[site.callee_name()][0]]) and i.ops[1] is not site:
            self.say("loader", "data", i, "what is hashed is not the beginning of the data just read")
        t = self.strip(self.S.t(i.ops[2]))
        if not (t[0] == "call" and t[2] in line[2]) and not (t[0] == "val" and t[1] in line[2]):
            ok = False
            v = i.ops[2]
            while v.kind == "inst" and v.op in ("zext", "sext", "trunc", "freeze"):
                v = v.ops[0]
            ok = v in line[2]
            if not ok:
                self.say("loader", "length", i, "the number of bytes hashed is not the length of the data just read")
        return [((ctx, ("line", site, line[2], False)), env)]

    def ret(self, e, q, t, env):
        if self.kind == "ptr" and t.ops:
            v = e.val(t.ops[0], env)
            if v and v[0] == "p" and v[1] == frozenset(["null"]):
                return
        self.n["ret"] += 1
        ctx, line = q
        self.pending(line, t, "the matrix is returned")
        if ctx != "done":
            self.say("loader", "nodigest", t, "the matrix is returned without the digest the caller asked for")


def loader(b, rep):
    rep.rule("loader", "when the caller asks for the digest: every successful read is followed by exactly one update with exactly "
             "the data read, unmodified, before the next read; the hash is started once before; the digest is produced once, "
             "where the caller asked, after a read has hit the end of the input")
    M = b.lib()
    us = pts.units(M)
    n = 0
    for u in us:
        if u.fn.name.startswith("spasm_SHA256"):
            continue
        ups = list(u.fn.calls("spasm_SHA256_final"))
        reads = [i for i in u.insts() if i.op == "call" and i.callee_name() in READ]
        if not ups or not reads:
            continue
        S = Sym(u, M)
        fn = u.fn
        h = f = None
        for a in fn.args:
            if a.type == "ptr" and any(S.t(i.ops[0]) == S.t(a) for i in ups):
                h = a
        if h is None:
            rep.bad("loader", fn.name, "where", "the digest is not written where the caller asked for it")
            continue
        cl = Loader(rep, u, fn, S, h, f)
        p12.run_client(rep, cl, fn, u)
        n += 1
        rep.ok("loader", fn.name, "%(read)d reads, %(update)d updates, %(final)d digests, %(ret)d returns visited" % cl.n)
    ld = M.functions.get("spasm_triplet_load")
    if ld is not None and not ld.decl and not n:
        rep.bad("loader", "spasm_triplet_load", "nodigest", "the loader never produces a digest of what it reads")


def check(b, rep):
    rep.expl = ("Path-wise affine interpretation of the streaming hash (LLVM IR, helpers inlined, loops cut at their headers with "
                "inferred affine invariants): ghost counters of bytes waiting and bytes consumed; padding content per byte; "
                "canonical bitwise/modular forms of the compression function compared with FIPS 180-4; property simulation of the "
                "loader under the assumption that a digest is asked for.")
    rep.assumptions += ["the length of one update is below 2^61", "input lines contain no NUL byte (a line is hashed up to its "
                        "first NUL)"]
    block = stream(b, rep)
    compression(b, rep, block)
    loader(b, rep)


if __name__ == "__main__":
    sys.exit(run("P22", check))
