"""Which values does a loop counter take?  Counters with constant step and a comparison guarding an exit."""
import cfg
from sym import C, add, neg_cond, to_poly, neg, subst, walk


def facts(c, truth=True):
    """atomic facts known once condition term c is known to be `truth`"""
    if not truth:
        c = neg_cond(c)
    if c[0] == "and":
        out = set()
        for x in c[1:]:
            out |= facts(x)
        return out
    if c[0] == "not" and c[1][0] == "or":
        out = set()
        for x in c[1][1:]:
            out |= facts(neg_cond(x))
        return out
    return {c}


def edge_facts(S, b, k):
    """facts holding when block b leaves through its k-th successor (conditional branches only)"""
    t = b.term
    if t.op != "br" or len(t.targets) != 2 or t.targets[0] is t.targets[1]:
        return set()
    return facts(S.cond(S.t(t.ops[0])), k == 0)


class Range:
    """values lo <= i < hi (terms), visited one by one.  `others` = the remaining exits of the loop."""

    def __init__(self, phi, lo, hi, step, loop, exit_block, others, first, term):
        self.phi, self.lo, self.hi, self.step, self.loop = phi, lo, hi, step, loop
        self.exit_block, self.others, self.first, self.term = exit_block, others, first, term

    def full(self):
        return not self.others


def counters(S, L):
    """[(phi, init term, step)] of the header phis that advance by a constant on every trip"""
    out = []
    for ph in L.header.phis:
        init, step, ok = set(), set(), True
        for v, p in ph.incoming:
            if p in L.blocks:
                d, k = to_poly(add(S.t(v), ("phi", ph), -1))
                if d:
                    ok = False
                    break
                step.add(k)
            else:
                init.add(S.t(v))
        if ok and len(step) == 1 and len(init) == 1:
            out.append((ph, next(iter(init)), next(iter(step))))
    return out


def effects(b):
    return any(i.op in ("store", "atomicrmw", "cmpxchg") or (
        i.op == "call" and not (i.callee_name() or "").startswith("llvm.dbg")) for i in b.insts)


def position(L, b):
    """where is the test in block b?  True: before the body, False: after it, None: in the middle"""
    post = [x for x in L.blocks if x is not b and cfg.dominates(b, x)]
    pre = [x for x in L.blocks if x is not b and x not in post]
    if not effects(b) and not any(effects(x) for x in pre):
        return True
    if not any(effects(x) for x in post):
        return False
    return None


def loop_ranges(S, L):
    """every (counter, exit test) pair of the loop that bounds the counter"""
    ex = L.exits()
    out = []
    cs = counters(S, L)
    for (b, tgt) in ex:
        t = b.term
        if t.op != "br" or len(t.targets) != 2:
            continue
        stay = facts(S.cond(S.t(t.ops[0])), t.targets[0] is not tgt)
        more = [(b, tgt)] if len(stay) > 1 else []          # the loop may also stop for another reason
        for (ph, init, step) in cs:
            if step == 0:
                continue
            me = ("phi", ph)
            for c in stay:
                if c[0] not in ("lt0", "ne0", "ult"):
                    continue
                if c[0] == "ult":
                    e = add(c[2], c[3], -1)
                    if c[1] == "ult":
                        pass
                    elif c[1] == "ule":
                        e = add(e, C(-1))
                    else:
                        continue
                    c = ("lt0", e)
                d, k = to_poly(c[1])
                co = d.get((me,), 0)
                if co not in (1, -1) or any(me in m and m != (me,) for m in d):
                    continue
                rest = add(c[1], me if co == 1 else C(0), -1)
                if co == -1:
                    rest = add(c[1], me)
                first = position(L, b)
                if c[0] == "ne0" and co == -1:
                    rest, co = add(C(0), rest, -1), 1
                if first is False:                  # the test comes after the body: one more value is visited
                    rest = add(rest, C(-1 if co * step == 1 and co == 1 else 1), 1) if co == 1 and step == 1 else rest
                if co == 1 and step == 1:           # i + rest < 0 (or != 0)   ->  i < -rest
                    hi = neg(rest)
                    lo = init
                    out.append(Range(ph, lo, hi, 1, L, b, [x for x in ex if x != (b, tgt)] + more, first, me))
                elif co == -1 and step == -1 and c[0] == "lt0":   # rest - i < 0  -> i > rest
                    out.append(Range(ph, add(rest, C(1)), add(init, C(1)), -1, L, b,
                                     [x for x in ex if x != (b, tgt)] + more, first, me))
                elif co == 1 and step == -1 and c[0] == "ne0":    # down to != -rest
                    out.append(Range(ph, add(neg(rest), C(1)), add(init, C(1)), -1, L, b,
                                     [x for x in ex if x != (b, tgt)] + more, first, me))
    return out


def every_trip(b, L):
    """block b runs on every complete trip round loop L"""
    return all(cfg.dominates(b, x) for x in L.latches)


def index_range(S, at, idx, skip=None):
    """If term idx is (loop counter + const) of a loop round instruction `at`: (lo, hi, range) of idx, else None."""
    L = cfg.innermost_loop(at.block)
    while L is not None:
        for r in loop_ranges(S, L):
            d, k = to_poly(add(idx, r.term, -1))
            if not any(r.term in m for m in d) and (not d or True):
                off = add(idx, r.term, -1)
                if d and any(x[0] == "phi" for m in d for x in m):
                    continue
                return add(r.lo, off), add(r.hi, off), r
        L = L.parent
    return None


__all__ = ["facts", "edge_facts", "Range", "counters", "loop_ranges", "every_trip", "index_range"]
