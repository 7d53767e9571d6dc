"""OpenMP structure in the IR: work-shared loops, critical sections, atomic updates, per-thread memory."""
import cfg
from sym import C, el_split, walk, add, mul
from fills import CTR
from ranges import loop_ranges


def outlined(u):
    """bodies of the parallel regions of a unit"""
    return [f for f in u.fns if f is not u.fn and any(
        (i.callee_name() or "").startswith("__kmpc_") for i in f.insts() if i.op == "call")] + \
        [f for f in u.fns if f is not u.fn and not any(
            (i.callee_name() or "").startswith("__kmpc_") for i in f.insts() if i.op == "call")]


class WS:
    """a work-shared loop: loop, range, iteration variable (term)"""

    def __init__(self, loop, rng):
        self.loop, self.rng, self.iv = loop, rng, rng.term

    def latches(self):
        return self.loop.latches


def ws_loops(S, fn):
    lbs = []
    for i in fn.insts():
        if i.op == "call":
            n = i.callee_name() or ""
            if n.startswith("__kmpc_dispatch_next"):
                lbs.append(i.ops[3])
            elif n.startswith("__kmpc_for_static_init"):
                lbs.append(i.ops[4])
    out = []
    for L in cfg.loops(fn):
        for r in loop_ranges(S, L):
            init = [v for v, p in r.phi.incoming if p not in L.blocks]
            for v in init:
                while v.kind == "inst" and v.op in ("sext", "zext", "trunc"):
                    v = v.ops[0]
                if v.kind == "inst" and v.op == "load" and any(v.ops[0] is x for x in lbs):
                    out.append(WS(L, r))
                    break
    return out


def in_loop(L, i):
    return i.block in L.blocks


def escapes(L, start, via):
    """a path inside loop L from just after instruction `start` to the end of the iteration (or out of the loop) that
    meets no instruction / block of `via`; None if there is none, else the block where it ends"""
    vi = set(x for x in via if not hasattr(x, "insts"))
    vb = set(x for x in via if hasattr(x, "insts"))
    b = start.block
    k = b.insts.index(start)
    if any(x in vi for x in b.insts[k + 1:]):
        return None
    seen = set()

    def nexts(b):
        out = []
        for s in b.succs:
            if s.term.op == "unreachable":
                continue
            if s is L.header or s not in L.blocks:
                return None
            out.append(s)
        return out
    ns = nexts(b)
    if ns is None:
        return b
    st = list(ns)
    while st:
        x = st.pop()
        if x in seen or x in vb:
            continue
        seen.add(x)
        if any(i in vi for i in x.insts):
            continue
        ns = nexts(x)
        if ns is None:
            return x
        st += ns
    return None


def criticals(fn):
    """[(enter call, end call, name global, blocks-instructions set)] : instructions between them"""
    out = []
    for i in fn.insts():
        if i.op == "call" and (i.callee_name() or "") == "__kmpc_critical":
            body, seen = set(), set()
            ends = []
            st = [(i.block, i.block.insts.index(i) + 1)]
            while st:
                b, k = st.pop()
                stop = False
                for x in b.insts[k:]:
                    if x.op == "call" and (x.callee_name() or "") == "__kmpc_end_critical":
                        ends.append(x)
                        stop = True
                        break
                    body.add(x)
                if not stop:
                    for s in b.succs:
                        if s not in seen:
                            seen.add(s)
                            st.append((s, 0))
            out.append((i, ends, i.ops[2], body))
    return out


def alloc_of(S, base):
    """allocation call a base term stands for, with its size in bytes (term): (inst, bytes, zeroed) or None"""
    if base[0] != "call":
        return None
    n, i = base[1], base[2]
    if n in ("spasm_malloc", "malloc"):
        return i, S.t(i.ops[0]), False
    if n in ("spasm_calloc", "calloc"):
        return i, mul(S.t(i.ops[0]), S.t(i.ops[1])), True
    if n in ("spasm_realloc", "realloc"):
        return i, S.t(i.ops[1]), False
    return None


WIDTH = {"i1": 1, "i8": 1, "i16": 2, "i32": 4, "float": 4, "i64": 8, "double": 8, "ptr": 8}


def elem_bytes(f):
    """bytes written by each trip of a fill (1 for memset / memcpy, whose bounds are in bytes)"""
    return 1 if f.kind == "mem" else WIDTH.get(f.site.ops[0].type, 0)


def covers_all(S, f, alloc):
    """fill f writes every byte of the allocation (from its start)"""
    if f.guards or not f.whole() or f.idx != CTR:
        return False
    if f.kind == "mem":
        return f.lo == C(0) and f.hi == ("bytes", alloc[1])
    return f.lo == C(0) and mul(f.hi, C(elem_bytes(f))) == alloc[1]
