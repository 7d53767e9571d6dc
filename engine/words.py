"""Canonical forms of machine words: exclusive sums of products of shifted leaves (bitwise part), with modular sums as leaves."""


class Words:
    def __init__(self):
        self.ids = {}          # (summands, constant, width) -> number
        self.sums = []

    def sum_leaf(self, t, c, w):
        k = (frozenset(t.items()), c, w)
        n = self.ids.get(k)
        if n is None:
            n = self.ids[k] = len(self.sums)
            self.sums.append(k)
        return self.leaf(("+", n), w)

    @staticmethod
    def full(w):
        return (1 << w) - 1

    def const(self, c, w):
        c &= self.full(w)
        return {frozenset(): c} if c else {}

    def leaf(self, name, w):
        return {frozenset([(name, 0)]): self.full(w)}

    @staticmethod
    def key(a):
        return frozenset(a.items())

    @staticmethod
    def is_const(a):
        return not a or (len(a) == 1 and frozenset() in a)

    @staticmethod
    def cval(a):
        return a.get(frozenset(), 0)

    def xor(self, a, b):
        r = dict(a)
        for f, m in b.items():
            v = r.get(f, 0) ^ m
            if v:
                r[f] = v
            else:
                r.pop(f, None)
        return r

    def and_(self, a, b):
        r = {}
        for f, m in a.items():
            for g, n in b.items():
                k = m & n
                if k:
                    h = f | g
                    v = r.get(h, 0) ^ k
                    if v:
                        r[h] = v
                    else:
                        r.pop(h, None)
        return r

    def or_(self, a, b):
        return self.xor(self.xor(a, b), self.and_(a, b))

    def not_(self, a, w):
        return self.xor(a, self.const(-1, w))

    def shift(self, a, c, w):
        """left for c > 0, right for c < 0"""
        r = {}
        full = self.full(w)
        for f, m in a.items():
            m2 = (m << c) & full if c >= 0 else m >> -c
            if m2:
                g = frozenset((l, s + c) for l, s in f)
                r[g] = r.get(g, 0) ^ m2
        return {f: m for f, m in r.items() if m}

    def rotr(self, a, c, w=32):
        return self.xor(self.shift(a, -c, w), self.shift(a, w - c, w))

    def trunc(self, a, w):
        if len(a) == 1:
            (f, m), = a.items()
            if len(f) == 1:
                (l, s), = f
                if s == 0 and isinstance(l, tuple) and l[0] == "+" and self.sums[l[1]][2] > w:
                    sm = self.sums[l[1]]
                    r = self.const(sm[1], w)
                    for k, c in sm[0]:
                        r = self.add(r, self.trunc(dict(k), w), w, c)
                    return r
        full = self.full(w)
        return {f: m & full for f, m in a.items() if m & full}

    def terms(self, a, w):
        """(dict of summands, constant)"""
        if self.is_const(a):
            return {}, self.cval(a)
        if len(a) == 1:
            (f, m), = a.items()
            if len(f) == 1 and m == self.full(w):
                (l, s), = f
                if s == 0 and isinstance(l, tuple) and l[0] == "+" and self.sums[l[1]][2] == w:
                    return dict(self.sums[l[1]][0]), self.sums[l[1]][1]
        return {self.key(a): 1}, 0

    def add(self, a, b, w, k=1):
        ta, ca = self.terms(a, w)
        tb, cb = self.terms(b, w)
        t = dict(ta)
        for x, c in tb.items():
            v = (t.get(x, 0) + k * c) % (1 << w)
            if v:
                t[x] = v
            else:
                t.pop(x, None)
        c = (ca + k * cb) & self.full(w)
        if not t:
            return self.const(c, w)
        if c == 0 and len(t) == 1:
            (x, n), = t.items()
            if n == 1:
                return dict(x)
        return self.sum_leaf(t, c, w)

    def bswap(self, a, n):
        r = {}
        for k in range(n):
            byte = self.and_(self.shift(a, -8 * k, 8 * n), self.const(255, 8 * n))
            r = self.xor(r, self.shift(byte, 8 * (n - 1 - k), 8 * n))
        return r


def sha256(W, H, byte, K):
    """the FIPS 180-4 compression function over the given leaves"""
    add = lambda *xs: _sum(W, xs)
    w = []
    for t in range(16):
        x = {}
        for j in range(4):
            x = W.xor(x, W.shift(byte(4 * t + j), 24 - 8 * j, 32))
        w.append(x)
    for t in range(16, 64):
        a, b = w[t - 15], w[t - 2]
        s0 = W.xor(W.xor(W.rotr(a, 7), W.rotr(a, 18)), W.shift(a, -3, 32))
        s1 = W.xor(W.xor(W.rotr(b, 17), W.rotr(b, 19)), W.shift(b, -10, 32))
        w.append(add(w[t - 16], s0, w[t - 7], s1))
    a, b, c, d, e, f, g, h = H
    for t in range(64):
        S1 = W.xor(W.xor(W.rotr(e, 6), W.rotr(e, 11)), W.rotr(e, 25))
        ch = W.xor(W.and_(e, f), W.and_(W.not_(e, 32), g))
        t1 = add(h, S1, ch, W.const(K[t], 32), w[t])
        S0 = W.xor(W.xor(W.rotr(a, 2), W.rotr(a, 13)), W.rotr(a, 22))
        maj = W.xor(W.xor(W.and_(a, b), W.and_(a, c)), W.and_(b, c))
        t2 = add(S0, maj)
        h, g, f, e, d, c, b, a = g, f, e, add(d, t1), c, b, a, add(t1, t2)
    return [add(x, y) for x, y in zip(H, (a, b, c, d, e, f, g, h))]


def _sum(W, xs):
    r = {}
    for x in xs:
        r = W.add(r, x, 32)
    return r
