"""P30: the challenge generator is SHA-256 in counter mode over the whole seed, with exact rejection."""
from common import *
import cfg
import pts
import sym
import nest
from sym import C, add, el, el_split, mul, neg_cond, show, subst, to_poly, walk
from nest import Store
from words import Words
from p27 import Bad, Checker, Mode, Op, arg, at, implied, loc, modes

CTX = "spasm_prng_ctx"
BLOCK, HASH, PRIME, MASK, COUNTER, INDEX, FIELD = range(7)
SHA = ("spasm_SHA256_init", "spasm_SHA256_update", "spasm_SHA256_final")
BITS = {"and", "or", "xor", "shl", "lshr", "trunc", "zext"}


def width(t):
    return int(t[1:]) if t[:1] == "i" and t[1:].isdigit() else None


def f_(A, k):
    return ("fld", A, CTX, k)


class Bytes:
    """machine words as bit expressions over leaves; memory as bytes"""

    def __init__(self, op, seed=None):
        self.op, self.seed = op, seed
        self.W = Words()

    def leaf(self, t, w):
        return self.W.leaf(t, w)

    def load(self, q, i, sub):
        """a load seen as bytes of a byte array"""
        w = width(i.type)
        t = subst(q.t(i), sub)
        if t[0] in ("ld", "ldv") and self.seed is not None:
            base, idx = el_split(t[1])
            d, c = to_poly(idx)
            if base == self.seed and not d:
                out = {}
                if c < 0 or (c + 1) * (w // 8) > 32:
                    raise Bad(i.loc, "byte %d of the seed is read; it has 32" % (c * (w // 8)))
                for k in range(w // 8):
                    b = self.W.leaf(("seed", c * (w // 8) + k), 8)
                    out = self.W.xor(out, self.W.shift(b, 8 * k, w))
                return out
        return self.value(t, w)

    def value(self, t, w):
        d, c = to_poly(t)
        return self.W.const(c, w) if not d else self.leaf(t, w)

    def conv(self, q, v, sub=lambda t: None):
        W = self.W
        if v.kind == "const" or not hasattr(v, "op"):
            return self.value(subst(q.t(v), sub), width(v.type) or 64)
        w = width(v.type)
        if v.op == "load":
            return self.load(q, v, sub)
        if v.op == "call":
            n = v.callee_name() or "?"
            if n in ("htonl", "ntohl", "__bswap_32", "llvm.bswap.i32"):
                return W.bswap(self.conv(q, v.ops[0], sub), 4)
            if n in ("llvm.bswap.i64",):
                return W.bswap(self.conv(q, v.ops[0], sub), 8)
        if v.op in BITS and w is not None:
            a = self.conv(q, v.ops[0], sub)
            if v.op == "trunc":
                return W.trunc(a, w)
            if v.op == "zext":
                return a
            b = self.conv(q, v.ops[1], sub)
            if v.op == "and":
                return W.and_(a, b)
            if v.op == "or":
                return W.or_(a, b)
            if v.op == "xor":
                return W.xor(a, b)
            if W.is_const(b):
                k = W.cval(b)
                return W.shift(a, k if v.op == "shl" else -k, w)
        return self.value(subst(q.t(v), sub), w or 64)

    def bytes(self, word, n):
        return [self.W.key(self.W.trunc(self.W.shift(word, -8 * k, 8 * n), 8)) for k in range(n)]

    def be(self, t, w=32):
        """bytes of the network form of the low 32 bits of a term"""
        return self.bytes(self.W.bswap(self.W.trunc(self.value(t, w), 32), 4), 4)

    def zero(self):
        return self.W.key({})


class Memory:
    def __init__(self, B, base):
        self.B, self.base, self.mem = B, base, {}

    def put(self, q, s, sub, where):
        if s.base not in self.base:
            return
        v = s.inst.ops[0]
        w = width(v.type)
        d, c = to_poly(subst(el_split(s.addr)[1], sub))
        if d or w is None or w % 8:
            raise Bad(where, "a part of the block that cannot be told is written")
        for k, x in enumerate(self.B.bytes(self.B.conv(q, v, sub), w // 8)):
            self.mem[c * (w // 8) + k] = x

    def event(self, op, q, e):
        if isinstance(e, Store):
            self.put(q, e, lambda t: None, loc(e))
        elif e[0] == "loop":
            if not self.base & op.touched(e[1]):
                return
            for lo in range(12):
                for hi in (8, 11, 32, 44, 2, 9, 10, 3, 4, 5, 6, 7):
                    r = op.T.counter(e[1], e[2], C(lo), C(hi))
                    if r is not None:
                        return self.loop(op, e, r, lo, hi)
            raise Bad(loc(e[1]), "a loop fills the block over an extent that cannot be told")
        elif e[1].startswith(("llvm.mem", "mem")) and el_split(e[2][0])[0] in self.base:
            (d, c), (d2, n) = to_poly(el_split(e[2][0])[1]), to_poly(e[2][2])
            if d or d2:
                raise Bad(e[3].loc, "a part of the block that cannot be told is written")
            if c:
                c *= self.unit(e[3])
            if "memset" in e[1]:
                d, v = to_poly(e[2][1])
                if d:
                    raise Bad(e[3].loc, "the block is filled with an unknown byte")
                for k in range(n):
                    self.mem[c + k] = self.B.W.key(self.B.W.const(v, 8))
            else:
                src, off = el_split(e[2][1])
                d, o = to_poly(off)
                if d:
                    raise Bad(e[3].loc, "the block is copied from an unknown place")
                if src == self.B.seed and o + n > 32:
                    raise Bad(e[3].loc, "%d bytes of the seed are read; it has 32" % (o + n))
                for k in range(n):
                    self.mem[c + k] = self.B.W.key(self.B.W.leaf(("seed", o + k), 8)) if src == self.B.seed else "?"

    @staticmethod
    def unit(i):
        g = i.ops[0]
        t = getattr(g, "srcty", None) or ""
        return 1 if t == "i8" else 4

    def loop(self, op, e, r, lo, hi):
        bs = op.T.bodies(e[1])
        for k in range(lo, hi):
            ph = [x for x in walk(r) if x[0] == "phi"]
            off = to_poly(add(r, ph[0], -1))[1] if len(ph) == 1 else None

            def sub(t, k=k):
                return C(k - off) if ph and t == ph[0] else None
            if len(ph) != 1 or add(r, ph[0], -1) != C(off):
                d, o = to_poly(add(r, ph[0]))
                if len(ph) != 1 or d:
                    raise Bad(loc(e[1]), "a loop fills the block in an order that cannot be told")

                def sub(t, k=k):
                    return C(o - k) if t == ph[0] else None
            if len(bs) != 1:
                raise Bad(loc(e[1]), "a loop fills the block under a condition")
            for s in bs[0].stores():
                self.put(bs[0], s, sub, loc(s))


class Gen(Op):
    def norm(self, t):
        if t[0] == "fld" and t[2:] == (CTX, BLOCK):
            return t[1]
        return Op.norm(self, t)


def refill(op, q, A, B, mem):
    """the block is hashed whole into the digest; returns the last event of the refill"""
    cs = q.calls(*SHA)
    if [c[1] for c in cs if c[1] != SHA[1]] != [SHA[0], SHA[2]] or cs[0][1] != SHA[0] or cs[-1][1] != SHA[2]:
        raise Bad(loc(q), "the digest is not computed by one initialisation, updates and one finalisation")
    h = cs[0][2][0]
    pos = 0
    for c in cs[1:-1]:
        d, n = to_poly(c[2][2])
        base, off = el_split(c[2][1])
        dd, o = to_poly(off)
        if c[2][0] != h or base != A or d or dd:
            raise Bad(c[3].loc, "the digest is not that of the block")
        if o:
            o *= Memory.unit(c[3]) if c[3].ops[1].kind == "inst" else 4
        if o != pos:
            raise Bad(c[3].loc, "the block is not hashed in order: position %d instead of %d" % (o, pos))
        pos = o + n
    if pos != 44:
        raise Bad(cs[0][3].loc, "%d bytes of the block are hashed, not 44" % pos)
    if cs[-1][2] != (f_(A, HASH), h):
        raise Bad(cs[-1][3].loc, "the digest is not delivered into the generator's words")
    first, last = q.events.index(cs[1]), q.events.index(cs[-1])
    for e in q.events[first:last]:
        if isinstance(e, Store) and e.base in (A, h) or not isinstance(e, Store) and e[0] == "loop":
            raise Bad(loc(e) if isinstance(e, Store) else loc(q), "the block is changed while it is hashed")
    for e in q.events[last:]:
        if isinstance(e, Store) and (e.base == f_(A, HASH) or e.addr == f_(A, HASH)):
            raise Bad(loc(e), "the digest is changed after it was computed")
    return first, last


def final(q, a, upto=None):
    out = None
    for e in q.events[:upto]:
        if isinstance(e, Store) and e.addr == a:
            out = e
    return out


def advanced(op, q, A, B, mem, first, last, old):
    """after the refill: counter + 1, and the block names the new counter"""
    c = final(q, f_(A, COUNTER))
    after = [e for e in q.events[first:] if isinstance(e, Store) and e.addr == f_(A, COUNTER)]
    if c is None or len(after) != 1:
        raise Bad(loc(c) if c else loc(q), "the counter does not advance once with each refill")
    v = c.val
    ok = {("ld", f_(A, COUNTER))} if old is None else {old}
    d = add(v, C(-1))
    if not (d in ok or d[0] == "ldv" and d[1] == f_(A, COUNTER)):
        raise Bad(loc(c), "the counter becomes %s, not one more" % show(v))
    if mem.mem and [mem.mem.get(36 + k) for k in range(4)] != B.be(v):
        raise Bad(loc(c), "the block does not carry the new counter after a refill")


def seed(op, m):
    s, prime, seq, A = [arg(k) for k in range(4)]
    for q in op.paths():
        B = Bytes(op, s)
        mem = Memory(B, {A})
        first, last = refill(op, q, A, B, mem)
        for k, e in enumerate(q.events):
            if k == first:
                want = [B.W.key(B.W.leaf(("seed", i), 8)) for i in range(32)] + B.be(prime, 64) + [B.zero()] * 4 + B.be(seq)
                names = ["byte %d of the seed" % i for i in range(32)] + ["the modulus"] * 4 + ["counter zero"] * 4 + [
                    "the sequence number"] * 4
                for i in range(44):
                    if mem.mem.get(i) != want[i]:
                        raise Bad(loc(q), "byte %d of the block does not hold %s when it is hashed" % (i, names[i]))
            mem.event(op, q, e)
        c0 = final(q, f_(A, COUNTER), first)
        if c0 is None or c0.val != C(0):
            raise Bad(loc(q), "the counter does not start at 0")
        advanced(op, q, A, B, mem, first, last, C(0))
        for k, want, what in ((PRIME, prime, "the modulus"), (INDEX, C(0), "the position in the digest")):
            st = final(q, f_(A, k))
            if st is None or st.val != want:
                raise Bad(loc(st) if st else loc(q), "%s is not set to %s" % (what, show(want)))
        mask(op, q, A, prime)
        fi = q.calls("spasm_field_init")
        if [c[2] for c in fi] != [(prime, f_(A, FIELD))]:
            raise Bad(loc(q), "the field is not initialised with the modulus")


def mask(op, q, A, prime):
    st = final(q, f_(A, MASK))
    if st is None:
        raise Bad(loc(q), "the mask is not set")
    ph = [t for t in walk(st.val) if t[0] == "phi"]
    ls = [e for e in q.loops() if ph and ph[0][1].block is e[1].header]
    if len(ph) != 1 or len(ls) != 1:
        raise Bad(loc(st), "the mask is not computed by doubling")
    p, e = ph[0], ls[0]
    z = e[2].get(p[1])
    nx = {b.next.get(p[1]) for b in op.T.bodies(e[1])}
    if st.val == add(p, C(-1)):
        ok, low = z == C(1) and nx == {mul(p, C(2))}, prime
    elif st.val == p:
        ok, low = z == C(0) and nx == {add(mul(p, C(2)), C(1))}, add(prime, C(-1))
    else:
        ok, low = False, None
    if not ok:
        raise Bad(loc(st), "the mask is not one less than a power of two")
    go = ("lt0", add(p, low, -1))
    if not all(implied(go, b.facts) for b in op.T.bodies(e[1])) or not all(
            implied(neg_cond(go), b.facts) for b in op.T.left(e[1], e[3])):
        raise Bad(loc(e[1]), "the mask does not stop at the first power of two that covers the modulus")


def word(op, m):
    A = arg(0)
    i = ("ld", f_(A, INDEX))
    end = [("eq0", add(i, C(-8))), neg_cond(("lt0", add(i, C(-8))))]
    for q in op.paths():
        B = Bytes(op)
        mem = Memory(B, {A})
        empty = any(implied(c, q.facts) for c in end)
        if empty:
            first, last = refill(op, q, A, B, mem)
            for e in q.events:
                mem.event(op, q, e)
            for k in mem.mem:
                if not 36 <= k < 40:
                    raise Bad(loc(q), "the seed, the modulus or the sequence number change between two refills")
            if not mem.mem:
                raise Bad(loc(q), "the block does not carry the new counter after a refill")
            advanced(op, q, A, B, mem, first, last, None)
            k = C(0)
        else:
            if not any(implied(neg_cond(c), q.facts) for c in end):
                raise Bad(loc(q), "a word is delivered without testing whether the digest is used up")
            if q.calls(*SHA):
                raise Bad(loc(q), "a refill although the digest is not used up")
            k = i
        for s in q.stores():
            if s.addr not in (f_(A, INDEX), f_(A, COUNTER), f_(A, BLOCK)) and s.base != A:
                raise Bad(loc(s), "unexpected write to %s" % show(s.addr))
        st = final(q, f_(A, INDEX))
        if st is None or st.val != add(k, C(1)):
            raise Bad(loc(st) if st else loc(q), "the position in the digest does not advance by one")
        rv = next(b.term for b in reversed(q.blocks) if b.term.op == "ret").ops[0]
        got = B.W.key(B.conv(q, rv))
        src = [x for x in leaves(got) if x[0] in ("ld", "ldv")]
        if len(src) != 1 or src[0][1] != el(f_(A, HASH), k):
            raise Bad(loc(q), "the word delivered is not word %s of the digest" % show(k))
        if got != B.W.key(B.W.bswap(B.leaf(src[0], 32), 4)):
            raise Bad(loc(q), "the word delivered is not in network order")


def leaves(key):
    out = []
    for f, _ in key:
        for l, _ in f:
            if isinstance(l, tuple) and l not in out:
                out.append(l)
    return out


def residue(op, m):
    A = arg(0)
    us = [i for i in op.u.insts() if i.op == "call" and i.callee_name() == "spasm_ZZp_init"]
    for i in us:
        if op.S.t(i.ops[0]) != f_(A, FIELD):
            raise Bad(i.loc, "the number is reduced in another field")

    def draw(q):
        cs = q.calls("spasm_prng_u32")
        if len(cs) != 1 or cs[0][2] != (A,):
            raise Bad(loc(q), "not exactly one word is drawn for each attempt")
        return ("call", "spasm_prng_u32", cs[0][3])

    def cell(t, k):
        return t[0] in ("ld", "ldv") and t[1] == f_(A, k)

    def attempt(t, w):
        return t[0] == "op" and t[1] == "and" and len(t) == 4 and (
            t[2] == w and cell(t[3], MASK) or t[3] == w and cell(t[2], MASK))

    def accepted(q, w):
        """True / False: the number is known to be below / not below the modulus"""
        for f in q.facts:
            neg = f[0] == "not"
            c = f[1] if neg else f
            if c[0] == "ult":
                for a, b, less, notless in ((c[2], c[3], "ult", "uge"), (c[3], c[2], "ugt", "ule")):
                    if attempt(a, w) and cell(b, PRIME) and c[1] in (less, notless):
                        return a, neg == (c[1] == notless)
            if c[0] == "lt0":
                for x in walk(c[1]):
                    if attempt(x, w):
                        for y in walk(c[1]):
                            if cell(y, PRIME):
                                if c == ("lt0", add(x, y, -1)):
                                    return x, not neg
                                if c == neg_cond(("lt0", add(x, y, -1))):
                                    return x, neg
        return None, None
    ls = cfg.loops(op.u.fn)
    if len(ls) != 1:
        raise Bad(op.name, "not exactly one loop of attempts")
    L = ls[0]
    for q in op.T.trips(L):
        if q.end is L.header:
            w = draw(q)
            if accepted(q, w)[1] is not False:
                raise Bad(loc(q), "a number that may be below the modulus is rejected")
    for p in op.paths():
        for e in p.loops():
            for q in op.T.left(L, e[3]):
                w = draw(q)
                x, a = accepted(q, w)
                if a is not True:
                    raise Bad(loc(q), "a number that is not known to be below the modulus is accepted")
                r = p.ret
                if r[0] != "zz" or r[1] != "init" or not (r[2] == x or attempt(r[2], w)):
                    raise Bad(loc(p), "the value returned is %s, not the residue of the number drawn" % show(r))


def simple(op, m):
    prime, seed_, seq, A = [arg(k) for k in range(4)]
    for q in op.paths():
        cs = q.calls("spasm_prng_seed")
        if len(cs) != 1 or cs[0][2][1:] != (prime, seq, A):
            raise Bad(cs[0][3].loc if cs else loc(q), "the modulus, sequence number or generator are not handed over")
        base, off = el_split(cs[0][2][0])
        if off != C(0) or base[0] != "al":
            raise Bad(cs[0][3].loc, "the seed handed over is not the block built from the number")
        B = Bytes(op)
        mem = Memory(B, {base})
        for e in q.events[:q.events.index(cs[0])]:
            mem.event(op, q, e)
        lo = B.W.trunc(B.leaf(seed_, 64), 32)
        hi = B.W.trunc(B.W.shift(B.leaf(seed_, 64), -32, 64), 32)
        want = B.bytes(B.W.bswap(lo, 4), 4) + B.bytes(B.W.bswap(hi, 4), 4) + [B.zero()] * 24
        for i in range(32):
            if mem.mem.get(i) != want[i]:
                raise Bad(loc(q), "byte %d of the seed does not hold %s" % (i, (
                    "the low half of the number", "the high half of the number")[i // 4] if i < 8 else "zero"))


def check(b, rep):
    rep.expl = ("Path-wise symbolic execution of the IR of the generator (helpers inlined) with byte-exact contents of the hashed "
                "block, every word in a canonical form over exclusive or, and, shift of the inputs.")
    for r, t in (("seeding", "the block hashed is seed, modulus, counter 0, sequence number; all of the state is initialised"),
                 ("refill", "words 0..7 of the digest delivered once each, then the whole block is hashed with the next counter"),
                 ("residue", "words masked and rejected unless below the modulus"),
                 ("number", "a numeric seed occupies the first two words, zeros follow"),
                 ("private-state", "nothing else changes the state of the generator")):
        rep.rule(r, t)
    M = b.lib(omp=False)
    ck = Checker(rep, M)
    import p27
    old = p27.Op
    p27.Op = Gen
    try:
        ck.run("seeding", "spasm_prng_seed", modes(), seed)
        ck.run("refill", "spasm_prng_u32", modes(), word)
        ck.run("residue", "spasm_prng_ZZp", modes(), residue)
        ck.run("number", "spasm_prng_seed_simple", modes(), simple)
    finally:
        p27.Op = old
    mine = {"spasm_prng_seed", "spasm_prng_u32", "spasm_prng_ZZp", "spasm_prng_seed_simple"}
    for u in pts.units(M):
        if u.fn.name in mine - {"spasm_prng_ZZp"}:
            continue
        S = sym.Sym(u, M)
        bad = 0
        for i in u.insts():
            if i.op == "store":
                a = S.t(i.ops[1])
                if any(t[0] == "fld" and t[2] == CTX for t in walk(a)):
                    rep.bad("private-state", i.loc, u.fn.name, "%s changes the state of the generator" % u.fn.name)
                    bad = 1
        if not bad:
            rep.ok("private-state", u.fn.name, "no store")


if __name__ == "__main__":
    sys.exit(run("P30", check))
