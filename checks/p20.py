"""P20: room is guaranteed before an entry is appended."""
from common import *
import pts
import cfg
import par
import trips
import p04
from sym import Sym, C, add, mul, el_split, walk, show, to_poly, subst
from ranges import loop_ranges, edge_facts, facts
from fills import CTR
from p17 import fields
from counts import Counts, prove, expand, mentions
from p04 import KIND, DATA, fname

strip = trips.strip
ALLOC = {"spasm_csr_alloc": 2, "spasm_triplet_alloc": 2}


class Site:
    def __init__(self, inst, f, obj, st, k, idx):
        self.inst, self.f, self.obj, self.st, self.k, self.idx = inst, f, obj, st, k, idx


class Unit:
    def __init__(self, rep, u, M):
        self.rep, self.u, self.M = rep, u, M
        self.S = Sym(u, M)
        self.ws = {}
        self.cache = {}
        self.exacts = {}
        self.hyps = self.hypotheses()

    # -- what is known of sizes
    def hypotheses(self):
        S = self.S
        out = []
        for f in self.u.fns:
            for i in f.insts():
                if i.op != "call":
                    continue
                n = i.callee_name() or ""
                t = ("call", n, i)
                if n in ("spasm_ffpack_rref", "spasm_ffpack_LU"):
                    r = S.t(i)
                    out.append(add(S.t(i.ops[1]), r, -1))       # rank <= rows
                    out.append(add(S.t(i.ops[2]), r, -1))       # rank <= columns
                elif n == "spasm_sparse_triangular_solve":
                    r = S.t(i)
                    m = ("ld", ("fld", S.t(i.ops[0]), "spasm_csr", 2))
                    out.append(add(m, r, -1))
                elif n in KIND:
                    o = S.t(i.ops[0])
                    st = KIND[n][0]
                    cnt = ("ld", ("fld", o, st, 1)) if st == "spasm_triplet" else None
                    if cnt:
                        out.append(add(("ld", o), cnt, -1))
                        out.append(add(("ld", ("fld", o, st, 0)), cnt, -1))
        return list(dict.fromkeys(out))

    def sites(self):
        u, S = self.u, self.S
        out = []
        for f in u.fns:
            for i in f.insts():
                if i.op != "store":
                    continue
                if not [x for x in fields(u, i.ops[1]) if x[0] == "in" and (x[1], x[2]) in DATA]:
                    continue
                b, x = el_split(S.t(i.ops[1]))
                if b[0] == "ld" and b[1][0] == "fld" and ("struct." + b[1][2], b[1][3]) in DATA:
                    out.append(Site(i, f, b[1][1], b[1][2], b[1][3], x))
        return out

    def events(self, obj):
        S = self.S
        out = []
        for f in self.u.fns:
            for i in f.insts():
                if i.op == "call" and i.callee_name() in KIND and S.t(i.ops[0]) == obj:
                    out.append((i, f, S.t(i.ops[1])))
        return out

    def run(self):
        sites = self.sites()
        n = 0
        seen = {}
        for s in sites:
            ev = self.events(s.obj)
            grow = [e for e in ev if not (e[2][0] == "c" and e[2][1] < 0)]
            slot = self.slot(s)
            if s.f is not self.u.fn and slot is None:
                continue                                    # positions reserved under a lock: the rules of P04
            fresh = s.obj[0] == "call" and s.obj[1] in ALLOC
            if fresh and not grow and slot is None:
                continue                                    # allocated at its final size
            n += 1
            self.one(s, ev, grow, slot)
        return n

    def slot(self, s):
        """the position is the value of a counter of the object advanced atomically: that instruction"""
        d, k = to_poly(s.idx)
        if len(d) == 1:
            m, c = next(iter(d.items()))
            if len(m) == 1 and c == 1 and m[0][0] == "inst" and m[0][1].op == "atomicrmw":
                return m[0][1]
        return None

    def where(self, i):
        return "%s %s" % (fname(i.block.fn), i.loc)

    # -- one append
    def one(self, s, ev, grow, slot):
        S, rep = self.S, self.rep
        i, f = s.inst, s.f
        nzmax = {("ld", s.obj), ("ld", ("fld", s.obj, s.st, 0))}
        for e, g, t in grow:
            w = self.narrow(e.ops[1])
            if w is not None:
                rep.bad("room", self.where(e), "narrow", "the room to be made is computed in 32 bits (%s)" % w.loc)
        caps = []           # (kind, where, term): the capacity is at least `term` there
        for e, g, t in grow:
            for x in expand(t):
                pass
            caps.append(("call", e, t))
        if s.obj[0] == "call" and s.obj[1] in ALLOC:
            e = s.obj[2]
            caps.append(("call", e, S.t(e.ops[ALLOC[s.obj[1]]])))
        null = set()
        for b in self.u.fn.blocks:
            t = b.term
            if t.op != "br" or len(t.targets) != 2 or t.targets[0] is t.targets[1]:
                continue
            for k in (0, 1):
                for x in edge_facts(S, b, k):
                    alts = x[1:] if x[0] == "or" else (x,)
                    ts, isnull, other = [], False, False
                    for y in alts:
                        c = self.bound(y, nzmax, s)
                        if c is not None:
                            ts.append(c)
                        elif y[0] == "eq0" and y[1][0] == "pdiff" and s.obj in y[1][1:]:
                            isnull = True
                        else:
                            other = True
                    if other:
                        continue
                    if len(ts) == 1:
                        caps.append(("edge", (b, t.targets[k]), ts[0]))
                    elif not ts and isnull:
                        null.add((b, t.targets[k]))
        at = i if f is self.u.fn else self.fork_of(f)
        caps = [c for c in caps if c[0] == "call" or self.reaches(c[1][1], 0, at, set(), set(), set(), first=False)]
        sets = []
        for _, _, t in caps:
            x = {x for x in walk(t) if x[0] == "phi"}
            if x not in sets:
                sets.append(x)
        whole = set().union(*sets) if sets else set()
        why = "room"
        for stop in [whole] + [x for x in sets if x != whole] + ([set()] if whole and set() not in sets else []):
            good, base = self.fits(s, caps, stop, slot)
            if not good:
                continue
            # every way to the entry passes through one of them
            edges = {w for kind, w in good if kind == "edge"} | null
            calls = {w for kind, w in good if kind == "call"}
            bad = [e for e, g, t in ev if e not in calls]
            phs = [x[1] for x in base if x[0] == "phi" and any(x[1].block is h.header and at.block in h.blocks
                                                               for h in cfg.loops(self.u.fn))]
            lims = {p.block for p in phs}
            starts = [(b, 0) for b in lims] or [(self.u.fn.entry, 0)]
            for e in bad:
                starts.append((e.block, e.block.insts.index(e) + 1))
            if at in calls or any(self.reaches(b, k, at, edges, calls, lims, first=True) for b, k in starts):
                why = "path"
                continue
            break
        else:
            if why == "room":
                rep.bad("room", self.where(i), "room:%d" % s.k, "an entry is written without a preceding test (or enlargement) that "
                        "guarantees room for all the entries written up to there")
            else:
                rep.bad("room", self.where(i), "path:%d" % s.k, "on some path the entry is written without a test (or enlargement) "
                        "that guarantees room for it")
            return
        self.rep.ok("room", self.where(i))
        self.stale(s, ev)

    def narrow(self, v):
        """a product computed in 32 bits on the way to v"""
        seen, todo = set(), [v]
        while todo:
            x = todo.pop()
            if x in seen or x.kind != "inst":
                continue
            seen.add(x)
            var = [o for o in x.ops if hasattr(o, "kind") and o.kind != "int"]
            if x.op in ("mul", "shl") and x.type == "i32" and len(var) > 1:
                return x
            if x.op in ("add", "sub", "mul", "shl", "sdiv", "udiv", "ashr", "lshr", "sext", "zext", "trunc", "phi", "select", "freeze"):
                todo += [o for o in x.ops if hasattr(o, "kind")]
            elif x.op == "load":
                r = self.u.resolve(x)
                if r is not x:
                    todo.append(r)
        return None

    def fork_of(self, f):
        return self.u.forks[f][0] if isinstance(self.u.forks[f], (tuple, list)) else self.u.forks[f]

    def bound(self, y, nzmax, s):
        """fact y as  nzmax >= t: t"""
        if y[0] == "lt0":
            d, k = to_poly(y[1])
            mx = [x for x in nzmax if d.get((x,)) == -1]
            if mx:
                return add(add(y[1], mx[0]), C(1))
        if y[0] == "ne0":
            d, k = to_poly(y[1])
            for x in nzmax:
                if d.get((x,)) in (1, -1):
                    rest = add(y[1], x, -d[(x,)])
                    rest = rest if d[(x,)] == -1 else add(C(0), rest, -1)
                    return add(rest, C(1))              # count <= nzmax always; different, hence smaller
        return None

    def reaches(self, b, k, at, edges, calls, lims, first):
        seen = set()
        st = [(b, k)]
        while st:
            b, k = st.pop()
            stop = False
            for x in b.insts[k:]:
                if x is at:
                    return True
                if x in calls:
                    stop = True
                    break
            if stop:
                continue
            for t in b.succs:
                if (b, t) in edges or t in seen or t in lims:
                    continue
                seen.add(t)
                st.append((t, 0))
        return False

    # -- does the capacity cover the position?
    def fits(self, s, caps, stop, slot):
        S = self.S
        hy = list(self.hyps)
        for x in {("ld", s.obj), ("ld", ("fld", s.obj, s.st, 0))}:
            for ph in stop:
                d = [t for kind, w, t in caps if kind == "edge" and mentions(t, ph)]
                if d and self.counterlike(ph[1], s):
                    hy.append(add(x, ph, -1))
        minus = Minus(self, s)
        good, base = [], set()
        ways = []
        if slot is not None:
            us = self.slots(s, slot, hy)
            if us is not None:
                ways.append([add(u, C(1)) for u in us])
        else:
            key = (s.f, s.inst.block, frozenset(stop), tuple(hy))
            c = self.cache.get(key)
            if c is None:
                c = self.cache[key] = Counts(S, s.f, hy, stop, minus)
            us = c.ub(s.idx)
            if us is not None:
                ways.append([add(u, C(1)) for u in us])
            for ph in self.carriers(s):
                us = c.ub(("phi", ph))
                if us is not None and ("phi", ph) not in stop:
                    ways.append(us)
        ex = self.exacts.get(tuple(hy))
        if ex is None:
            ex = self.exacts[tuple(hy)] = Counts(S, self.u.fn, hy, set())
        for us in ways:
            base = {x for u in us for x in walk(u) if x[0] == "phi" and x in stop}
            good = []
            for kind, w, t in caps:
                if all(any(prove(self.scaled(a, need), hy) for a in self.exact(t, ex)) for need in us):
                    good.append((kind, w))
            if good:
                return good, base
        return [], set()

    def carriers(self, s):
        """counters of the enclosing loops whose value at the end of the trip is beyond the position: it is at most their final value"""
        S, f = self.S, s.f
        out = []
        for L in cfg.loops(f):
            if s.inst.block not in L.blocks:
                continue
            # blocks reachable from the store within the trip
            reach, st = set(), [s.inst.block]
            edges = set()
            while st:
                b = st.pop()
                if b in reach:
                    continue
                reach.add(b)
                for t in b.succs:
                    edges.add((b, t))
                    if t is not L.header and t in L.blocks:
                        st.append(t)
            nxt = add(s.idx, C(1))
            past = {i for b in L.blocks for i in b.insts if i.op in ("add", "phi", "sext", "zext") and i.type[0] == "i" and S.t(i) == nxt}
            for l in cfg.loops(f):
                if l.header in reach and l.header in L.blocks and l is not L and cfg.dominates(s.inst.block, l.header):
                    for p in l.header.insts:
                        if p.op == "phi" and any(S.t(v) == nxt for v, b in p.incoming if b not in l.blocks):
                            out.append(p)
            phis = {i for b in L.blocks if b is not L.header for i in b.insts if i.op == "phi"}

            def beyond(v):
                v = strip(v)
                if v in past or v in phis:
                    return True
                if v.kind == "inst" and v.op == "add" and v.block in L.blocks:
                    for a, b in ((v.ops[0], v.ops[1]), (v.ops[1], v.ops[0])):
                        if b.kind == "int" and b.val >= 0 and beyond(a):
                            return True
                return False
            more = True
            while more:
                more = False
                for p in list(phis):
                    if p not in past and not all(beyond(v) for v, b in p.incoming if (b, p.block) in edges):
                        phis.discard(p)
                        more = True
            for p in L.header.insts:
                if p.op == "phi":
                    inc = [(v, b) for v, b in p.incoming if b in L.blocks and (b, L.header) in edges]
                    if inc and all(beyond(v) for v, b in inc):
                        out.append(p)
        return out

    def counterlike(self, ph, s):
        d, k = to_poly(s.idx)
        seen, todo = set(), [m[0][1] for m in d if len(m) == 1 and m[0][0] == "phi"]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x is ph:
                return True
            if x.kind == "inst" and x.op in ("phi", "add", "select", "sext", "zext", "sub"):
                todo += [o for o in x.ops if hasattr(o, "kind")]
        return False

    def scaled(self, cap, need):
        """cap - need, with halves cleared"""
        d, k = to_poly(cap)
        for m, c in d.items():
            if len(m) == 1 and m[0][0] == "op" and m[0][1] in ("sdiv", "udiv", "ashr", "lshr") and c == 1 and m[0][3][0] == "c":
                q = m[0][3][1] if m[0][1] in ("sdiv", "udiv") else 1 << m[0][3][1]
                rest = add(cap, m[0], -1)
                return add(m[0][2], mul(C(q), add(rest, need, -1)))
        return add(cap, need, -1)

    def exact(self, t, ex):
        """the term itself, and with its counters replaced by what they amount to"""
        out = [t]
        d, k = to_poly(t)
        for m in d:
            if len(m) == 1 and m[0][0] == "phi":
                L = ex.headers.get(m[0][1].block)
                if L is None:
                    continue
                rs = [r for r in loop_ranges(self.S, L) if not [x for x in r.others if x[1].term.op != "unreachable"]]
                lat = [v for v, p in m[0][1].incoming if p in L.blocks]
                if not rs or any(x[0] == "phi" and x not in (m[0], rs[0].term) for v in lat for x in walk(self.S.t(v))):
                    continue
                us = ex.phi(m[0][1])
                if us and len(us) == 1:
                    out.append(add(t, add(m[0], us[0], -1), -d[m]))
        return out

    def slots(self, s, a, hy):
        """positions handed out one by one: the start plus the number of times the instruction can run"""
        S = self.S
        n = C(1)
        if not (a.ops[1].kind == "int" and a.ops[1].val == 1 and a.rmw == "add"):
            return None
        fld = S.t(a.ops[0])
        if any(i.op == "store" and S.t(i.ops[1]) == fld for i in s.f.insts()) or len(
                [i for i in s.f.insts() if i.op == "atomicrmw" and S.t(i.ops[0]) == fld]) != 1:
            return None
        start = ("ld", fld)
        if s.obj[0] == "call" and s.obj[1] in ALLOC:
            start = C(0)
        wsl = {w.loop: w for w in par.ws_loops(S, s.f)}
        L = cfg.innermost_loop(a.block)
        while L is not None:
            cand = None
            if L in wsl:
                cand = [self.ws_count(s.f)]
                if cand[0] is None:
                    return None
                out = L.parent
                n = mul(n, cand[0])
                break
            c = Counts(S, s.f, hy)
            rs = loop_ranges(S, L)
            if not rs:
                return None
            r = rs[0]
            cnt = add(r.hi, r.lo, -1)
            lim = self.pivots(L, r, a)
            n = mul(n, lim if lim is not None else cnt)
            L = L.parent
        else:
            return None
        return [add(add(start, n), C(-1))]

    def ws_count(self, f):
        """number of iterations of the work-shared loop"""
        S = self.S
        out = []
        for i in f.insts():
            n = i.callee_name() or "" if i.op == "call" else ""
            if n.startswith("__kmpc_dispatch_init"):
                out.append(add(add(S.t(i.ops[4]), S.t(i.ops[3]), -1), C(1)))
            elif n.startswith("__kmpc_for_static_init"):
                lb = [S.t(x.ops[0]) for x in self.u.stores_to(i.ops[4]) if cfg.path_inst(x, i, lambda y: False)
                      and not cfg.path_inst(i, x, lambda y: False)]
                ub = [S.t(x.ops[0]) for x in self.u.stores_to(i.ops[5]) if cfg.path_inst(x, i, lambda y: False)
                      and not cfg.path_inst(i, x, lambda y: False)]
                if len(lb) == 1 and len(ub) == 1:
                    out.append(add(add(ub[0], lb[0], -1), C(1)))
        return out[0] if len(set(out)) == 1 else None

    def pivots(self, L, r, a):
        """the loop runs over the pattern of a triangular solve and the instruction only for pivotal columns: their number"""
        S = self.S
        if r.lo[0] != "call" or r.lo[1] != "spasm_sparse_triangular_solve":
            return None
        c = r.lo[2]
        xj, q = S.t(c.ops[3]), S.t(c.ops[5])
        x = ("ld", ("el", xj, r.term))
        want = ("ld", ("el", q, x))
        for b, truth, term in cfg.dominating_conditions(a.block):
            if not hasattr(b, "kind"):
                continue
            for y in edge_facts(S, term.block, 0 if truth else 1):
                if trips.contradicts(y, ("lt0", want)) or y == ("ne0", add(want, C(1))):
                    return ("ld", ("fld", S.t(c.ops[0]), "spasm_csr", 1))
        return None

    # -- addresses
    def stale(self, s, ev):
        S, rep = self.S, self.rep
        if s.f is not self.u.fn:
            # read before the region starts, after the last enlargement
            for l in p04.ptr_loads(None, s.inst.ops[1].ops[0]):
                r = self.u.resolve(l)
                v = strip(r)
            self.outer(s, ev)
            return
        if s.inst.ops[1].kind != "inst":
            return
        for e, g, t in ev:
            if self.outdated(s.inst.ops[1], s.inst, e, set()):
                rep.bad("address", self.where(s.inst), "stale:%d" % s.k, "the entry is written through an address read before the "
                        "storage was enlarged")
                return
        rep.ok("address", self.where(s.inst))

    def outdated(self, p, use, e, seen):
        """can e run between the moment the address p was read and its use?"""
        p = strip(p)
        if (p, use) in seen or p.kind != "inst":
            return False
        seen.add((p, use))
        if p.op == "gep":
            return self.outdated(p.ops[0], use, e, seen)
        if p.op == "select":
            return any(self.outdated(o, use, e, seen) for o in p.ops[1:])
        if p.op == "phi":
            hd = p.block.insts[0]
            if cfg.path_inst(hd, e, lambda x: x is use and False) and self.between(p, e, use):
                return True
            return any(self.outdated(v, q.term, e, seen) for v, q in p.incoming)
        if p.op == "load":
            r = self.u.resolve(p)
            if r is not p:
                return self.outdated(r, use, e, seen)
            return self.between(p, e, use)
        return False

    def between(self, d, e, use):
        """a path from the definition d to e and on to the use, without passing d again"""
        return cfg.path_inst(d, e, lambda x: False) and cfg.path_inst(e, use, lambda x: x is d)

    def outer(self, s, ev):
        S, rep = self.S, self.rep
        fk = self.fork_of(s.f)
        b = s.inst.ops[1]
        while b.kind == "inst" and b.op == "gep":
            b = b.ops[0]
        src = [strip(x) for x in self.sources(b)]
        for e, g, t in ev:
            for l in src:
                if l.kind == "inst" and l.block.fn is self.u.fn and e.block.fn is self.u.fn and self.between(l, e, fk):
                    rep.bad("address", self.where(s.inst), "stale:%d" % s.k, "the entry is written through an address read before "
                            "the storage was enlarged")
                    return
        rep.ok("address", self.where(s.inst))

    def sources(self, v):
        """loads of the address in the enclosing function"""
        out, seen, todo = [], set(), [v]
        while todo:
            x = strip(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.kind != "inst":
                continue
            if x.op == "phi":
                todo += list(x.ops)
            elif x.op == "select":
                todo += list(x.ops[1:])
            elif x.op == "load":
                r = self.u.resolve(x)
                if r is not x:
                    todo.append(r)
                    continue
                st = []
                for root, path in self.u.of(x.ops[0]):
                    if root[0] == "alloca" and not path:
                        st += self.u.stores_to(root[1])
                if st:
                    todo += [y.ops[0] for y in st]
                else:
                    out.append(x)
        return out


class Minus:
    """entries of the range of a loop that are known not to be counted"""

    def __init__(self, U, s):
        self.U, self.S, self.s = U, U.S, s

    def __call__(self, L, rng, fs):
        iv, lo, hi = rng
        out = []
        if fs is None:
            return out
        F = {self.norm(x, iv) for x in fs}
        if self.witness(L, lo, hi, F):
            out.append(lambda t: add(t, C(-1)))
        return out

    def norm(self, x, iv):
        return p04.absent(subst(x, lambda t: CTR if t == iv else None))

    def witness(self, L, lo, hi, F):
        """some element of the range fails the test F"""
        S = self.S
        for v, truth, term in cfg.dominating_conditions(L.header) + cfg.dominating_conditions(self.s.inst.block):
            if not hasattr(v, "kind"):
                continue
            if v.kind == "inst" and v.op == "icmp":
                for a, o in ((v.ops[0], v.ops[1]), (v.ops[1], v.ops[0])):
                    a = strip(a)
                    if a.kind == "inst" and a.op == "phi" and (v.pred, bool(truth)) in (("ne", True), ("eq", False)) and \
                            self.chosen(a, S.t(o), lo, hi, F):
                        return True
            for x in edge_facts(S, term.block, 0 if truth else 1):
                if x[0] not in ("ne0", "lt0"):
                    continue
                for a in {y for y in walk(x[1]) if y[0] == "phi"}:
                    rest = add(x[1], a, -1) if x[0] == "ne0" and to_poly(x[1])[0].get((a,)) == 1 else None
                    if rest is None and x[0] == "ne0" and to_poly(x[1])[0].get((a,)) == -1:
                        rest = add(C(0), add(x[1], a), -1)
                    if x[0] == "lt0" and to_poly(x[1])[0].get((a,)) == 1:
                        rest = add(x[1], a, -1)              # a < -rest
                    if rest is None:
                        continue
                    none = add(C(0), rest, -1)
                    if self.chosen(a[1], none, lo, hi, F):
                        return True
        return False

    def chosen(self, ph, none, lo, hi, F):
        """ph is `none` unless an element of lo..hi was found that fails F"""
        S = self.S
        seen, todo, n = set(), [ph], 0
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for v, b in p.incoming:
                v = strip(v)
                if v.kind == "inst" and v.op == "phi":
                    todo.append(v)
                    continue
                if v.kind == "undef" or S.t(v) == none:
                    continue
                vs = [v]
                if v.kind == "inst" and v.op == "select":
                    return False
                l = cfg.innermost_loop(b)
                rs = []
                lp = None
                for m in [l] + [x for x in cfg.loops(self.s.f) if any(e[0] is b or e[1] is b for e in x.exits())]:
                    for r in loop_ranges(S, m) if m is not None else ():
                        if r.lo == lo and r.hi == hi:
                            rs.append(r)
                            lp = m
                if not rs:
                    return False
                r = rs[0]
                G = set()
                for c, truth, term in cfg.dominating_conditions(b):
                    if hasattr(c, "kind"):
                        G |= {self.norm(x, r.term) for x in edge_facts(S, term.block, 0 if truth else 1)}
                k = [k for k in range(len(b.succs)) if b.succs[k] is p.block]
                if len(k) == 1 and len(b.succs) == 2:
                    G |= {self.norm(x, r.term) for x in edge_facts(S, b, k[0])}
                if any(trips.contradicts(x, y) for x in F for y in G):
                    n += 1
                    continue
                if self.registered(ph, v, r, F):
                    n += 1
                    continue
                return False
        return n > 0

    def registered(self, ph, v, r, F):
        """the element chosen was registered as a pivot since, and the test F asks for columns without pivot"""
        S = self.S
        el = subst(S.t(v), lambda t: CTR if t == r.term else None)
        for x in F:
            if x[0] != "lt0" or x[1][0] != "ld":
                continue
            base, idx = el_split(x[1][1])
            if idx != el:
                continue
            for i in self.s.f.insts():
                if i.op == "store" and cfg.inst_dominates(i, self.s.inst):
                    b2, x2 = el_split(S.t(i.ops[1]))
                    val = S.t(i.ops[0])
                    if b2 == base and x2 == ("phi", ph) and not (val[0] == "c" and val[1] < 0):
                        return True
        return False


def resizers(rep, M):
    """the functions that enlarge do enlarge every array, by the size asked, and record it"""
    for name, (st, ks) in sorted(KIND.items()):
        fs = [f for f in M.defined() if f.name == name]
        if not fs:
            rep.bad("enlarge", name, "gone", "%s is not defined" % name)
            continue
        u = pts.Unit(fs[0]).solve()
        S = Sym(u, M)
        new = set()
        A = ("arg", 0)
        done = {}
        for i in u.insts():
            if i.op == "store":
                a = S.t(i.ops[1])
                if a[0] == "fld" and a[1] == A or a == A:
                    k = 0 if a == A else a[3]
                    done.setdefault(k, []).append(i)
        mx = [S.t(i.ops[0]) for i in done.get(0, [])]
        if len(set(mx)) != 1:
            rep.bad("enlarge", name, "nzmax", "the capacity is not recorded (or not always the same)")
            continue
        size = mx[0]
        w = name
        # what is recorded: the number asked, or the current count for a negative one
        alts = [size] if size[0] != "sel" else [size[2], size[3]]
        cnt = {("ld", ("fld", A, st, 1))} if st == "spasm_triplet" else set()
        okc = True
        for x in alts:
            if x == ("arg", 1) or x in cnt or x[0] == "ld" and st == "spasm_csr" or x[0] == "call" and x[1] == "spasm_nnz":
                continue
            okc = False
        if size[0] == "sel" and not (size[1] == ("lt0", ("arg", 1)) and size[3] == ("arg", 1)):
            okc = size[1][0] == "lt0" and size[1] != ("lt0", ("arg", 1)) and size[2] == ("arg", 1) and okc
        if size[0] not in ("sel", "arg", "max"):
            okc = False
        if not okc:
            rep.bad("enlarge", w, "size", "the capacity recorded is not the one asked for")
        else:
            rep.ok("enlarge", w)
        if any(not every(u.fn, i) for i in done.get(0, [])):
            rep.bad("enlarge", w, "sometimes", "the capacity is not recorded on every path")
        for k in ks:
            good = None
            for i in done.get(k, []):
                v = S.t(i.ops[0])
                if v[0] == "call" and v[1] in ("spasm_realloc", "realloc"):
                    c = v[2]
                    if S.t(c.ops[0]) != ("ld", ("fld", A, st, k)):
                        good = "another array is enlarged in its place"
                        break
                    if not prove(add(S.t(c.ops[1]), mul(C(4), size), -1), []):
                        good = "the array is not enlarged to the capacity recorded"
                        break
                    # on every path, except when there is no such array
                    if not every(u.fn, i, lambda b, kk: any(x[0] == "eq0" and x[1][0] == "pdiff" and ("ld", ("fld", A, st, k))
                                                            in x[1][1:] for x in edge_facts(S, b, kk))):
                        good = "on some path the array is not enlarged"
                        break
                    good = ""
            if good is None:
                good = "the array is not enlarged"
            if good:
                rep.bad("enlarge", w, "array:%d" % k, good + " (field %d)" % k)
            else:
                rep.ok("enlarge", w)
    for name, st, ks in (("spasm_csr_alloc", "spasm_csr", (4, 5)), ("spasm_triplet_alloc", "spasm_triplet", (4, 5, 6))):
        fs = [f for f in M.defined() if f.name == name]
        if not fs:
            continue
        u = pts.Unit(fs[0]).solve()
        S = Sym(u, M)
        want = ("arg", 2)
        seen = {}
        for i in u.insts():
            if i.op == "store":
                a = S.t(i.ops[1])
                if a[0] == "fld" and a[1][0] == "call":
                    seen.setdefault(a[3], []).append(S.t(i.ops[0]))
                elif a[0] == "call":
                    seen.setdefault(0, []).append(S.t(i.ops[0]))
        if not seen.get(0) or any(x != want for x in seen[0]):
            rep.bad("enlarge", name, "nzmax", "the capacity recorded at creation is not the one asked for")
        else:
            rep.ok("enlarge", name)
        for k in ks:
            good = bool(seen.get(k))
            for v in seen.get(k, []):
                for x in ([v] if v[0] != "sel" else [v[2], v[3]]):
                    if x == ("null",):
                        continue
                    if x[0] != "call" or x[1] not in ("spasm_malloc", "spasm_calloc", "malloc", "calloc"):
                        good = False
                        continue
                    c = x[2]
                    sz = S.t(c.ops[0]) if x[1].endswith("malloc") else mul(S.t(c.ops[0]), S.t(c.ops[1]))
                    if not prove(add(sz, mul(C(4), want), -1), []):
                        good = False
            if good:
                rep.ok("enlarge", name)
            else:
                rep.bad("enlarge", name, "array:%d" % k, "an array is created smaller than the capacity recorded (field %d)" % k)


def every(fn, i, skip=lambda b, k: False):
    """every path from the entry to a return passes i (except through the edges skipped)"""
    seen, st = set(), [fn.entry]
    while st:
        b = st.pop()
        if b in seen or i.block is b:
            continue
        seen.add(b)
        if b.term.op == "ret":
            return False
        for k, s in enumerate(b.term.targets if b.term.op == "br" else b.succs):
            if not (len(b.succs) == 2 and b.term.op == "br" and skip(b, k)):
                st.append(s)
    return True


class Sub:
    """collects the results of the concurrent rules under this property"""

    def __init__(self, rep, names):
        self.rep, self.names = rep, names
        self.extra = {}

    def ok(self, rule, where):
        if rule in self.names:
            self.rep.ok(self.names[rule], where)

    def bad(self, rule, where, key, msg):
        if rule in self.names:
            self.rep.bad(self.names[rule], where, key, msg)

    def rule(self, *a):
        pass


def check(b, rep):
    rep.rule("room", "every append is preceded, on every path, by a capacity test or an enlargement covering the largest position the "
             "counter can have reached")
    rep.rule("address", "the address written through was read after the last enlargement")
    rep.rule("enlarge", "enlarging (and creating) covers index and value arrays alike, by the capacity recorded")
    M = b.lib()
    n = 0
    resizers(rep, M)
    sub = Sub(rep, {"capacity": "room", "amount": "room", "refresh": "address"})
    for u in pts.units(M):
        if u.fn.name in KIND or "SHA256" in u.fn.name:
            continue
        U = Unit(rep, u, M)
        n += U.run()
        for f in u.fns:
            if f is not u.fn and f in u.forks:
                for ws in par.ws_loops(U.S, f):
                    p04.run_region(sub, U.S, u, f, ws)
    rep.extra["sites"] = n
    rep.need("room", 30)
    rep.need("enlarge", 10)
    rep.expl = ("Every store into the entry arrays of a sparse object is bounded symbolically (sums over the enclosing loops, as "
                "polynomials in the sizes) and compared with the capacity guaranteed by the tests and enlargements that every path "
                "to it must pass.")
    rep.assumptions = ["sizes are not negative", "the rank of a dense block is at most its dimensions", "the pattern of a sparse "
                       "triangular solve holds distinct columns and starts at a position between 0 and their number",
                       "the capacity of an object is at least its number of entries", "objects allocated at their final size are "
                       "out of scope"]


if __name__ == "__main__":
    sys.exit(run("P20", check))
