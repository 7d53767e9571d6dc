"""Symbolic upper bounds of counters: how far can a counter have advanced when it is used?

Terms of sym.py with rational coefficients.  Every atom stands for a non-negative quantity unless stated otherwise."""
from fractions import Fraction as Q
from itertools import product
import cfg
import trips
from sym import C, add, mul, neg, to_poly, mk, walk, subst, el_split, COND, eqn
from ranges import loop_ranges, edge_facts
from fills import CTR


def linear_atom(t, a):
    """coefficient of atom a in t when it only occurs linearly"""
    d, k = to_poly(t)
    c = d.get((a,), 0)
    return c if not any(a in m and m != (a,) for m in d) else None


def mentions(t, a):
    return any(x == a for x in walk(t))


def positive(t):
    d, k = to_poly(t)
    d = dict(d)
    for m in [m for m, c in d.items() if len(m) == 1 and c < 0]:
        sq = (m[0], m[0])                   # integers: a * a >= a
        if d.get(sq, 0) > 0:
            x = min(d[sq], -d[m])
            d[sq] -= x
            d[m] += x
    return k >= 0 and all(v >= 0 for v in d.values())


PROVED = {}


def prove(t, hyps, depth=3):
    key = (t, tuple(hyps), depth)
    r = PROVED.get(key)
    if r is None:
        r = PROVED[key] = prove_(t, hyps, depth)
    return r


def prove_(t, hyps, depth):
    """t >= 0, given h >= 0 for h in hyps and every atom >= 0 (conditionals may be negative: both cases are looked at)"""
    a = conditional(t)
    if a is not None:
        # usually the conditional cancels out or occurs within hypotheses as a whole
        return all(prove(poly_subst(t, a, x), [poly_subst(h, a, x) for h in hyps], depth) for x in values(a))
    if positive(t):
        return True
    if depth == 0:
        return False
    pos = {a for m, c in to_poly(t)[0].items() if c > 0 for a in m}
    for n, h in enumerate(hyps):
        d, k = to_poly(h)
        for m, c in d.items():
            if len(m) == 1 and c == 1 and m[0] in pos and linear_atom(h, m[0]) == 1:
                a = m[0]
                slack = ("slack", n)
                rest = add(a, h, -1)            # a = h + rest = slack + rest
                x = add(slack, rest)
                t2 = poly_subst(t, a, x)
                if t2 == t:
                    continue
                if prove(t2, [poly_subst(g, a, x) for g in hyps[:n] + hyps[n + 1:]], depth - 1):
                    return True
    return False


def conditional(t):
    d, k = to_poly(t)
    for m in d:
        for a in m:
            if a[0] == "sel" or a[0] in COND:
                return a
    return None


def values(a):
    return [a[2], a[3]] if a[0] == "sel" else [C(0), C(1)]


def poly_subst(t, a, x):
    """replace atom a by x in the polynomial t (top level only)"""
    d, k = to_poly(t)
    acc = C(k)
    for m, c in d.items():
        y = C(c)
        for b in m:
            y = mul(y, x if b == a else b)
        acc = add(acc, y)
    return acc


def sum_over(t, iv, lo, hi, hyps=()):
    """sum of t for iv = lo .. hi-1 (hi >= lo assumed); None if unknown.  An upper bound."""
    d, k = to_poly(t)
    n = add(hi, lo, -1)
    acc = mul(C(k), n)
    for m, c in d.items():
        cnt = sum(1 for a in m if a == iv)
        others = [a for a in m if a != iv]
        coef = C(c)
        for a in others:
            if mentions(a, iv):
                if len(m) == 1 and a[0] == "min" and c > 0:
                    coef = None
                    break
                if cnt == 0:
                    x = ("sum", lo, hi, subst(mk({m: 1}, 0), lambda y: CTR if y == iv else None))
                    acc = add(acc, mul(C(c), x))
                    coef = False
                    break
                return None
            coef = mul(coef, a)
        if coef is False:
            continue
        if coef is None:
            s = sum_min(others[0], iv, lo, hi, hyps)
            if s is None:
                return None
            acc = add(acc, mul(C(c), s))
            continue
        if cnt == 0:
            acc = add(acc, mul(coef, n))
        elif cnt == 1:
            # sum of iv = (hi(hi-1) - lo(lo-1)) / 2
            s = add(mul(hi, add(hi, C(-1))), mul(lo, add(lo, C(-1))), -1)
            acc = add(acc, mul(mul(coef, C(Q(1, 2))), s))
        else:
            return None
    return acc


def sum_min(a, iv, lo, hi, hyps):
    """sum of min(iv + c, r) over lo <= iv < hi"""
    x, y = a[1], a[2]
    if mentions(y, iv):
        x, y = y, x
    if mentions(y, iv) or lo != C(0):
        return None
    d, c = to_poly(add(x, iv, -1))
    if d or c < 0:
        return None
    r = y
    # iv + c <= r  for iv <= r - c
    if prove(add(hi, add(r, C(-c)), -1), list(hyps)):
        h = add(r, C(-c))
        s = add(mul(C(Q(1, 2)), mul(h, add(h, C(-1)))), mul(C(c), h))
        return add(s, mul(r, add(hi, h, -1)))
    s = mul(C(Q(1, 2)), mul(hi, add(hi, C(-1))))
    return add(s, mul(C(c), hi))


def expand(t):
    """alternatives of a term holding conditionals: [terms], one of which is its value; conditions used as numbers are <= 1"""
    d, k = to_poly(t)
    out = [C(k)]
    for m, c in d.items():
        fac = [C(c)]
        for a in m:
            if a[0] == "sel":
                alts = expand(a[2]) + expand(a[3])
            elif a[0] in COND:
                alts = [C(0), C(1)]
            elif a[0] == "op" and a[1] in ("sext", "zext", "trunc", "freeze"):
                alts = [a]
            else:
                alts = [a]
            fac = [mul(x, y) for x in fac for y in alts]
        out = [add(x, y) for x in out for y in fac]
    return list(dict.fromkeys(out))


class Counts:
    def __init__(self, S, f, hyps=(), stop=(), minus=lambda L, r, fs: [], ws=None):
        self.S, self.f, self.hyps, self.stop, self.minus, self.ws = S, f, list(hyps), set(stop), minus, ws or {}
        self.memo = {}
        self.track = set()
        self.busy = set()
        self.headers = {}
        for l in cfg.loops(f):
            self.headers[l.header] = l

    def best(self, ts):
        """drop alternatives below another one"""
        ts = list(dict.fromkeys(ts))
        out = []
        for i, t in enumerate(ts):
            if any(j != i and (prove(add(s, t, -1), self.hyps)) and not (j > i and prove(add(t, s, -1), self.hyps))
                   for j, s in enumerate(ts)):
                continue
            out.append(t)
        return out

    def ub(self, t):
        """[upper bounds] : the value is at most one of them (all must be accommodated); None if unknown"""
        if t in self.stop:
            return [t]
        outs = []
        for alt in self.split(t):
            d, k = to_poly(alt)
            acc = [C(k)]
            for m, c in d.items():
                if len(m) == 1 and m[0][0] == "phi" and m[0] not in self.stop and c > 0:
                    us = self.phi(m[0][1])
                    if us is None:
                        return None
                    ys = [mul(C(c), u) for u in us]
                elif len(m) == 1 and m[0][0] == "max" and c > 0:
                    us = []
                    for x in m[0][1:]:
                        u = self.ub(x)
                        if u is None:
                            return None
                        us += u
                    ys = [mul(C(c), u) for u in us]
                else:
                    ys = [mk({m: c}, 0)]
                acc = [add(x, y) for x in acc for y in ys]
            outs += acc
        return self.best(outs)

    def split(self, t):
        """alternatives for the conditionals that hold counters"""
        out, todo = [], [t]
        while todo:
            t = todo.pop(0)
            d, k = to_poly(t)
            for m, c in d.items():
                a = [x for x in m if (x[0] == "sel" and any(y[0] == "phi" and (y not in self.stop or y in self.track) for z in x[2:] for y in walk(z)))]
                if a:
                    todo += [poly_subst(t, a[0], x) for x in values(a[0])]
                    break
            else:
                if t not in out:
                    out.append(t)
        return out

    def phi(self, ph):
        if ("phi", ph) in self.stop:
            return [("phi", ph)]
        if ph in self.memo:
            return self.memo[ph]
        if ph in self.busy:
            return None
        self.busy.add(ph)
        L = self.headers.get(ph.block)
        if L is None or ph.fn is not self.f:
            r = []
            for v, p in ph.incoming:
                if v.kind == "undef":
                    continue
                x = self.ub(self.S.t(v))
                if x is None:
                    r = None
                    break
                r += x
            r = self.best(r) if r else None
        else:
            r = self.loop(ph, L)
        self.busy.discard(ph)
        self.memo[ph] = r
        return r

    def steps(self, ph, L):
        """[increments of ph per trip]"""
        me = ("phi", ph)
        inner = Counts(self.S, self.f, self.hyps, self.stop | {me}, self.minus, self.ws)
        inner.track = self.track | {me}
        incs = []
        for v, p in ph.incoming:
            if p not in L.blocks:
                continue
            us = inner.ub(self.S.t(v))
            if us is None:
                return None
            for u in us:
                d = add(u, me, -1)
                if mentions(d, me):
                    return None
                incs.append(d)
        return self.best(incs)

    def loop(self, ph, L):
        init = []
        for v, p in ph.incoming:
            if p in L.blocks:
                continue
            us = self.ub(self.S.t(v))
            if us is None:
                return None
            init += us
        incs = self.steps(ph, L)
        if incs is None:
            return None
        if incs == [C(0)]:
            return self.best(init)
        if len(incs) != 1:
            return None
        best = None
        for n in self.total(L, incs[0], ph):
            r = [add(a, x) for a in init for x in n]
            r = self.best(r)
            if best is None or all(any(prove(add(y, x, -1), self.hyps) for y in best) for x in r):
                best = r
        return best

    def ranges(self, L):
        """[(iv term, lo, hi)]"""
        if L in self.ws:
            return [self.ws[L]]
        out = []
        for r in loop_ranges(self.S, L):
            out.append((r.term, r.lo, r.hi))
        return out

    def total(self, L, inc, ph):
        """yields [sums] alternatives of the advance over the whole loop"""
        for iv, lo, hi in self.ranges(L):
            forms = [([lo], [hi])]
            if (expand(lo), expand(hi)) != forms[0]:
                forms.append((expand(lo), expand(hi)))
            fs = self.counted(L, ph) if inc == C(1) else None
            for los, his in forms:
                sums = []
                for a, b in product(los, his):
                    s = sum_over(inc, iv, a, b, self.hyps)
                    if s is None:
                        sums = None
                        break
                    sums.append(s)
                if sums is None:
                    continue
                yield sums
                # refinement: entries of the range known not to be counted
                if inc == C(1):
                    for f in self.minus(L, (iv, lo, hi), fs):
                        yield [f(s) for s in sums]

    def counted(self, L, ph):
        """facts common to every trip that advances the counter"""
        S = self.S
        ts = trips.trips(S, L)
        if not ts:
            return None
        sets = []
        for P in ts:
            x = P.out(ph)
            ds = P.deltas(S, x, ph) if x is not None else None
            if ds is None:
                if P.facts:
                    sets.append(set(P.facts))
                else:
                    return None
                continue
            for more, k in ds:
                if k:
                    sets.append(set(P.facts) | set(more))
        if not sets:
            return None
        r = sets[0]
        for s in sets[1:]:
            r = r & s
        return r
