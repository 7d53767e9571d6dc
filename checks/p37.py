"""P37: tables that start from a fixed value get it in exactly every entry."""
from common import *
import fills
import pts
import sym
from fills import CTR, bytes_to
from sym import C, add, el_split, show, to_poly, walk

ALLOC = ("spasm_malloc", "malloc", "aligned_alloc")
FREE = {"free"}


def size_of(inst):
    v = inst.ops[0]
    t = v.type
    if t[:1] == "i" and t[1:].isdigit():
        return max(1, int(t[1:]) // 8)
    return {"ptr": 8, "double": 8, "float": 4}.get(t)


def fixed(t):
    """a constant, or a function of the position alone"""
    return t is not None and not to_poly(sym.subst(t, lambda x: C(0) if x == CTR else None))[0]


def scattered(idx):
    return any(x[0] in ("ld", "ldv") for x in walk(idx))


class Table:
    def __init__(self, alloc, term, nbytes):
        self.alloc, self.term, self.nbytes = alloc, term, nbytes
        self.fills, self.reads, self.shared = [], [], False

    def count(self, size):
        d, k = to_poly(self.nbytes)
        if size is None or k % size or any(c % size for c in d.values()):
            return None
        return sym.mk({m: c // size for m, c in d.items()}, k // size)


def tables(u, S):
    out = {}
    for fn in u.fns:
        for i in fn.insts():
            if i.op == "call" and i.callee_name() in ALLOC:
                n = S.t(i.ops[-1])
                if to_poly(n)[0]:
                    out[S.t(i)] = Table(i, S.t(i), n)
    for fn in u.fns:
        for f in fills.all_fills(S, fn):
            if f.base in out:
                out[f.base].fills.append(f)
        for i in fn.insts():
            if i.op == "load":
                b, x = el_split(S.t(i.ops[0]))
                if b in out:
                    out[b].reads.append((i, x))
            elif i.op == "call" and (i.callee_name() or "?") not in FREE and not (i.callee_name() or "").startswith("llvm."):
                for v in i.ops:
                    if getattr(v, "type", "") == "ptr":
                        b = el_split(S.t(v))[0]
                        if b in out:
                            out[b].shared = True
            elif i.op == "store" and i.ops[0].type == "ptr" and S.t(i.ops[0]) in out:
                out[S.t(i.ops[0])].shared = True
    return out


def extent(f, t):
    """(first, end, number of entries) of a fill that sets every entry it passes to a fixed value"""
    if f.val is None or f.rng is None and f.kind != "mem" or not f.whole() or f.guards or not fixed(f.val):
        return None
    if f.kind == "mem":
        return f.lo, add(f.lo, f.hi[1]) if f.lo == C(0) else None, t.nbytes
    k = add(f.idx, CTR, -1)
    if CTR in walk(k) or scattered(k):
        return None
    n = t.count(size_of(f.site))
    if n is None:
        return None
    return add(f.lo, k), add(f.hi, k), n


def cover(spans, n):
    """spans that chain up from 0 to n exactly"""
    best = []

    def go(at, used):
        nonlocal best
        if at == n and used:
            best = best or used
            return
        for s in spans:
            if s not in used and s[1] == at:
                go(s[2], used + [s])
    go(C(0), [])
    return best


def loose(t, n):
    """depends on something that changes and of which the size allocated is not made"""
    own = set(walk(n))
    return any(x[0] in ("phi", "inst", "call") and x not in own for x in walk(t))


def check(b, rep):
    A, B = "extent", "start"
    rep.rule("extent", "a table set to a fixed value entry by entry is set from its first to its last allocated entry")
    rep.rule("start", "a table in which scattered entries are marked, and which is tested at other positions, is first set entirely")
    M = b.lib(omp=False)
    for u in pts.units(M):
        if u.fn.name.startswith("spasm_SHA256"):
            continue            # no table is allocated there; the rounds make huge terms
        S = sym.Sym(u, M)
        for t in sorted(tables(u, S).values(), key=lambda t: t.alloc.loc):
            spans = []
            for f in t.fills:
                e = extent(f, t)
                if e is not None and e[1] is not None and not loose(e[0], e[2]) and not loose(e[1], e[2]):
                    spans.append((f, e[0], e[1], e[2]))
            done = []
            for s in spans:
                got = cover(spans, s[3])
                if s in got or s[1:] == (C(0), s[3], s[3]):
                    done.append(s[0])
                    rep.ok(A, s[0].site.loc, "%s entries" % show(s[3]))
                else:
                    rep.bad(A, s[0].site.loc, "%s:%s" % (u.fn.name, t.alloc.loc.split(":")[0]),
                            "%s: the table allocated at %s has %s entries; those set to %s are %s to %s (excluded)" %
                            (u.fn.name, t.alloc.loc, show(s[3]), show(s[0].val), show(s[1]), show(s[2])))
            marks = [f for f in t.fills if f.kind == "store" and f.val is not None and not to_poly(f.val)[0]
                     and scattered(f.idx)]
            tests = t.reads
            if marks and tests and not t.shared:
                first = [f for f in done if all(fills.before(f, i) for i, _ in tests)]
                rest = [f for f in t.fills if f not in done]
                same = rest if first and all(f.val == g.val for f in first for g in rest) else []
                if same:
                    rep.bad(B, same[0].site.loc, "%s:%s" % (u.fn.name, t.alloc.loc.split(":")[0]),
                            "%s: entries are marked with %s, the value every entry of the table has from the start (%s)" %
                            (u.fn.name, show(same[0].val), first[0].site.loc))
                elif first:
                    rep.ok(B, t.alloc.loc, "set at %s" % first[0].site.loc)
                else:
                    rep.bad(B, t.alloc.loc, "%s:%s" % (u.fn.name, t.alloc.loc.split(":")[0]),
                            "%s: entries of the table allocated at %s are marked at %s and tested at %s, but nothing gives every entry its starting value before" %
                            (u.fn.name, t.alloc.loc, marks[0].site.loc, tests[0][0].loc))
    rep.need(A, 18)
    rep.need(B, 2)
    rep.assumptions.append("a range that depends on a quantity changing between the allocation and the fill is not compared with the size allocated")


if __name__ == "__main__":
    sys.exit(run("P37", check))
