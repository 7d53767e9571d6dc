"""What is written where, over which index range: stores (and memset/memcpy) with the loop that drives them."""
import cfg
from sym import C, add, el_split, walk, subst, to_poly, mk
from ranges import loop_ranges, edge_facts, facts

CTR = ("ctr",)


class Fill:
    def __init__(self, site, base, idx, val, rng, lo, hi, guards, loop, kind):
        self.site, self.base, self.idx, self.val, self.rng = site, base, idx, val, rng
        self.lo, self.hi, self.guards, self.loop, self.kind = lo, hi, guards, loop, kind

    def whole(self):
        """runs for every value of its counter"""
        return self.kind == "mem" or (self.rng is not None and not self.rng.others)

    def __repr__(self):
        from sym import show
        return "%s: %s[%s] := %s for %s..%s if %s" % (
            self.site.loc, show(self.base), show(self.idx), show(self.val) if self.val else "?",
            show(self.lo) if self.lo else "-", show(self.hi) if self.hi else "-", [show(g) for g in self.guards])


def dead_end(b):
    return b.term.op == "unreachable"


def exits_of(L):
    return {b for b, _ in L.exits()} if L is not None else set()


def shift(t, k):
    """counter renamed: CTR -> CTR - k"""
    return subst(t, lambda a: add(CTR, C(-k)) if a == CTR else None)


def offset(idx):
    """idx is CTR + k, or an element at CTR + k of some array: k"""
    for t in walk(idx):
        if t == CTR:
            return 0
        if t[0] == "poly" and len(t[1]) == 1 and t[1][0] == ((CTR,), 1):
            return t[2]
    return 0


def guards_in(S, block, L, skip=()):
    """facts of the branches inside loop L (or the whole function) that decide whether `block` runs"""
    out, seen, st = set(), set(), [block]
    while st:
        b = st.pop()
        for (x, s) in cfg.control_deps(b):
            if (x, s) in seen or x in skip or (L is not None and x not in L.blocks):
                continue
            seen.add((x, s))
            t = x.term
            if t.op == "br" and len(t.targets) == 2:
                other = t.targets[1] if t.targets[0] is s else t.targets[0]
                if not dead_end(other):
                    out |= edge_facts(S, x, 0 if t.targets[0] is s else 1)
            st.append(x)
    return out


def rename(t, ctr):
    return subst(t, lambda a: CTR if a == ctr else None)


def counter_of(S, block, terms):
    """(range, innermost loop counter occurring in the terms)"""
    L = cfg.innermost_loop(block)
    while L is not None:
        rs = loop_ranges(S, L)
        for r in rs:
            if any(r.term in set(walk(t)) for t in terms):
                return r, L
        L = L.parent
    return None, None


def describe(S, site, base, idx, val, kind="store"):
    r, L = counter_of(S, site.block, [idx])
    if r is None:
        r, L = counter_of(S, site.block, [base])
    if r is None and val is not None:
        r, L = counter_of(S, site.block, [val])
    if r is None:
        L = cfg.innermost_loop(site.block)
        return Fill(site, base, idx, val, None, None, None,
                    guards_in(S, site.block, L) if L else set(), L, kind)
    r.others = [x for x in r.others if not dead_end(x[1])]
    g = guards_in(S, site.block, L, {r.exit_block} | {x[0] for x in r.others})
    idx, val, g = rename(idx, r.term), rename(val, r.term) if val else val, {rename(x, r.term) for x in g}
    lo, hi = r.lo, r.hi
    k = offset(idx) if r.step == -1 else 0
    if k:                       # a downward loop: count by the elements it touches
        idx, val, g = shift(idx, k), shift(val, k) if val else val, {shift(x, k) for x in g}
        lo, hi = add(lo, C(k)), add(hi, C(k))
    return Fill(site, base, idx, val, r, lo, hi, g, L, kind)


def all_fills(S, fn, sizes=None):
    out = []
    for i in fn.insts():
        if i.op == "store":
            base, idx = el_split(S.t(i.ops[1]))
            out.append(describe(S, i, base, idx, S.t(i.ops[0])))
        elif i.op == "call":
            n = i.callee_name() or ""
            if n.startswith("llvm.memset") or n == "memset":
                base, idx = el_split(S.t(i.ops[0]))
                v = i.ops[1]
                val = S.t(v)
                if val not in (C(0), C(-1)):
                    val = ("op", "bytes", val)
                ln = S.t(i.ops[2])
                L = cfg.innermost_loop(i.block)
                out.append(Fill(i, base, CTR, val, None, idx, ("bytes", ln), guards_in(S, i.block, L, exits_of(L)) if L else set(), L, "mem"))
            elif n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
                base, idx = el_split(S.t(i.ops[0]))
                sb, si = el_split(S.t(i.ops[1]))
                ln = S.t(i.ops[2])
                L = cfg.innermost_loop(i.block)
                out.append(Fill(i, base, CTR, ("ld", ("el", sb, add(CTR, si))) , None, idx, ("bytes", ln),
                                guards_in(S, i.block, L, exits_of(L)) if L else set(), L, "mem"))
    return out


def bytes_to(hi, size):
    """('bytes', t) -> element count t/size or None"""
    if hi is None or hi[0] != "bytes":
        return hi
    d, k = to_poly(hi[1])
    if k % size or any(c % size for c in d.values()):
        return None
    return mk({m: c // size for m, c in d.items()}, k // size)


def before(f, inst):
    """fill f is complete whenever inst runs, as far as dominance can tell"""
    if f.loop is not None and inst.block in f.loop.blocks:
        if f.rng is not None or f.loop is not cfg.innermost_loop(inst.block):
            return False
        return cfg.inst_dominates(f.site, inst)
    b = f.loop.header if f.loop is not None else f.site.block
    return cfg.dominates(b, inst.block) if f.loop is not None else cfg.inst_dominates(f.site, inst)


def after(f, inst):
    """fill f can only run after inst"""
    if f.site.block is inst.block:
        return f.site.block.insts.index(f.site) > inst.block.insts.index(inst)
    return cfg.dominates(inst.block, f.site.block)
