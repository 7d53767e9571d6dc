"""Integer affine forms and a small Fourier-Motzkin prover over them.

A form is a dict {atom: coefficient}, the constant under the key 1.  Facts are forms known to be >= 0.
"""
from math import gcd


def form(c=0, **kw):
    return {1: c} if c else {}


def const(c):
    return {1: c} if c else {}


def atom(a):
    return {a: 1}


def add(a, b, k=1):
    r = dict(a)
    for x, c in b.items():
        v = r.get(x, 0) + k * c
        if v:
            r[x] = v
        else:
            r.pop(x, None)
    return r


def scale(a, k):
    return {x: c * k for x, c in a.items()} if k else {}


def is_const(a):
    return not a or (len(a) == 1 and 1 in a)


def cval(a):
    return a.get(1, 0)


def key(a):
    return frozenset(a.items())


def modred(a, w):
    """coefficients reduced mod 2^w into the symmetric range"""
    m = 1 << w
    r = {}
    for x, c in a.items():
        c %= m
        if c >= m >> 1:
            c -= m
        if c:
            r[x] = c
    return r


def tight(a):
    """divide a >= 0 by the gcd of its non-constant coefficients, rounding the constant down"""
    g = 0
    for x, c in a.items():
        if x != 1:
            g = gcd(g, abs(c))
    if g <= 1:
        return a
    r = {x: c // g for x, c in a.items()}
    return {x: c for x, c in r.items() if c}


def eliminate(facts):
    """solve the equalities (f >= 0 and -f >= 0) that have a unit coefficient and substitute; None when contradictory"""
    facts = [tight(f) for f in facts]
    while True:
        keys = {frozenset(f.items()) for f in facts}
        eq = None
        for f in facts:
            if len(f) >= 1 and not is_const(f) and frozenset((x, -c) for x, c in f.items()) in keys:
                u = [x for x, c in f.items() if x != 1 and abs(c) == 1]
                if u:
                    eq = (f, min(u, key=str))
                    break
        if eq is None:
            return facts
        f, x = eq
        sub = scale(f, -f[x])          # x + rest = 0  ->  x = -rest / coefficient
        sub = {y: c for y, c in sub.items() if y != x}
        out, seen = [], set()
        for g in facts:
            c = g.get(x)
            if c:
                g = dict(g)
                del g[x]
                g = tight(add(g, sub, c))
            if is_const(g):
                if cval(g) < 0:
                    return None
                continue
            k = frozenset(g.items())
            if k not in seen:
                seen.add(k)
                out.append(g)
        facts = out


def eliminate_dead(facts, live):
    """use the equalities among the facts to get rid of atoms that are not live"""
    facts = [tight(f) for f in facts]
    while True:
        keys = {frozenset(f.items()) for f in facts}
        eq = None
        for f in facts:
            u = [x for x, c in f.items() if x != 1 and x not in live and abs(c) == 1]
            if u and frozenset((x, -c) for x, c in f.items()) in keys:
                eq = (f, min(u, key=str))
                break
        if eq is None:
            return facts
        f, x = eq
        sub = scale(f, -f[x])
        del sub[x]
        out, seen = [], set()
        for g in facts:
            c = g.get(x)
            if c:
                g = dict(g)
                del g[x]
                g = tight(add(g, sub, c))
            k = frozenset(g.items())
            if k not in seen and not is_const(g):
                seen.add(k)
                out.append(g)
        facts = out


def infeasible(facts, limit=700):
    """are the facts (forms >= 0) contradictory over the rationals (with gcd tightening)?"""
    cur = {}
    facts = eliminate(facts)
    if facts is None:
        return True
    for f in facts:
        f = tight(f)
        if is_const(f):
            if cval(f) < 0:
                return True
            continue
        v = frozenset((x, c) for x, c in f.items() if x != 1)
        if v not in cur or cval(f) < cur[v]:
            cur[v] = cval(f)
    while cur:
        pos, neg = {}, {}
        for v in cur:
            for x, c in v:
                if c > 0:
                    pos.setdefault(x, []).append(v)
                else:
                    neg.setdefault(x, []).append(v)
        best = None
        for x in set(pos) | set(neg):
            cost = len(pos.get(x, ())) * len(neg.get(x, ())) - len(pos.get(x, ())) - len(neg.get(x, ()))
            k = (cost, str(x))
            if best is None or k < best[0]:
                best = (k, x)
        x = best[1]
        new = {v: c for v, c in cur.items() if not any(y == x for y, _ in v)}
        for p in pos.get(x, ()):
            for n in neg.get(x, ()):
                dp, dn = dict(p), dict(n)
                a, b = dp[x], -dn[x]
                r = {}
                for y, c in dp.items():
                    r[y] = r.get(y, 0) + b * c
                for y, c in dn.items():
                    r[y] = r.get(y, 0) + a * c
                k = b * cur[p] + a * cur[n]
                r = {y: c for y, c in r.items() if c}
                if k:
                    r[1] = k
                r = tight(r)
                if is_const(r):
                    if cval(r) < 0:
                        return True
                    continue
                v = frozenset((y, c) for y, c in r.items() if y != 1)
                if v not in new or cval(r) < new[v]:
                    new[v] = cval(r)
        if len(new) > limit:
            return False
        cur = new
    return False


def relevant(facts, seed, depth=4):
    """the facts connected to the atoms of seed"""
    atoms = set(x for x in seed if x != 1)
    todo = list(facts)
    out = []
    for _ in range(depth):
        rest, grown = [], set()
        for f in todo:
            if any(x in atoms for x in f if x != 1):
                out.append(f)
                grown |= set(x for x in f if x != 1)
            else:
                rest.append(f)
        todo = rest
        if grown <= atoms:
            break
        atoms |= grown
    return out


def prove(facts, g, deep=False):
    """facts |- g >= 0 ?"""
    if is_const(g):
        if cval(g) >= 0:
            return True
        if not deep:
            return False
    n = scale(g, -1)
    n = add(n, const(-1))
    if infeasible(relevant(facts, g) + [n]):
        return True
    return deep and infeasible(list(facts) + [n])


def prove0(facts, g):
    if is_const(g):
        return cval(g) == 0
    return prove(facts, g) and prove(facts, scale(g, -1))
