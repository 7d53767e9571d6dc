"""P04: concurrent construction of one sparse result: enlarge only when nobody writes, write only what was reserved."""
from common import *
import pts
import cfg
import par
import trips
from sym import Sym, C, add, el_split, walk, show, to_poly, subst, neg_cond, mul
from fills import all_fills, CTR
from ranges import loop_ranges, edge_facts
from p17 import fields

CSR, TRI = "struct.spasm_csr", "struct.spasm_triplet"
DATA = {(CSR, 4), (CSR, 5), (TRI, 4), (TRI, 5), (TRI, 6)}
KIND = {"spasm_csr_realloc": ("spasm_csr", (4, 5)), "spasm_triplet_realloc": ("spasm_triplet", (4, 5, 6))}
strip = trips.strip


def fname(f):
    return f.name.replace(".omp_outlined", "").replace("_debug__", "")


class Region:
    def __init__(self, rep, S, u, f, ws):
        self.rep, self.S, self.u, self.f, self.ws, self.L = rep, S, u, f, ws, ws.loop
        self.crit = [c for c in par.criticals(f) if c[0].block in self.L.blocks]
        self.stores = []
        for b in self.L.blocks:
            for i in b.insts:
                if i.op != "store":
                    continue
                fl = [x for x in fields(u, i.ops[1]) if x[0] == "in" and (x[1], x[2]) in DATA]
                if not fl:
                    continue
                base, idx = el_split(S.t(i.ops[1]))
                if base[0] == "ld" and base[1][0] == "fld":
                    self.stores.append((i, base[1][1], base[1][2], base[1][3]))

    def where(self, i):
        return "%s %s" % (fname(self.f), i.loc)

    def in_crit(self, i):
        for c in self.crit:
            if i in c[3]:
                return c
        return None


def run_region(rep, S, u, f, ws):
    R = Region(rep, S, u, f, ws)
    ext = [i for b in R.L.blocks for i in b.insts if i.op == "call" and i.callee_name() in KIND]
    # only storage that is positioned by a counter taken under the lock (slots taken one by one atomically: P05)
    mine = []
    for s in R.stores:
        rt = roots(R, s[0])
        if rt and all(v.kind == "inst" and v.op == "atomicrmw" for v in rt):
            continue
        mine.append(s)
    if not ext and not mine:
        return 0
    objs = {}
    for i, o, st, k in mine:
        objs.setdefault(o, []).append((i, st, k))
    for e in ext:
        enlarge(R, e, objs)
    moving = {S.t(e.ops[0]) for e in ext}
    regs = registration(R, [s for s in mine if s[1] in moving])
    for o in objs:
        reserve(R, o, objs[o], ext, regs)
    return 1


def roots(R, store):
    """leaf values of the index a store uses (through phis and added constants)"""
    p = store.ops[1]
    if p.kind != "inst" or p.op != "gep":
        return set()
    return leafs(R, p.ops[-1])


def leafs(R, v):
    out, seen, todo = set(), set(), [v]
    while todo:
        v = strip(todo.pop())
        if v in seen:
            continue
        seen.add(v)
        if v.kind == "inst" and v.op == "phi":
            todo += list(v.ops)
        elif v.kind == "inst" and v.op in ("add", "sub") and v.ops[1].kind == "int":
            todo.append(v.ops[0])
        elif v.kind == "inst" and v.op == "add" and v.ops[0].kind == "int":
            todo.append(v.ops[1])
        elif v.kind == "inst" and v.op == "sub":
            todo.append(v.ops[0])
        elif v.kind in ("undef",):
            continue
        elif v.kind == "inst" and v.op == "load":
            r = R.u.resolve(v)
            if r is not v:
                todo.append(r)
            else:
                out.add(v)
        else:
            out.add(v)
    return out


# ------------------------------------------------------------------------------------------------ enlarging
def enlarge(R, e, objs):
    rep, S = R.rep, R.S
    c = R.in_crit(e)
    w = R.where(e)
    if c is None:
        rep.bad("lock", w, "lock", "%s runs outside the mutual-exclusion section" % e.callee_name())
        return
    rep.ok("lock", w)
    # quiescence
    ok = None
    for v, truth, term in cfg.dominating_conditions(e.block):
        if not hasattr(v, "kind"):
            continue
        fs = edge_facts(S, term.block, 0 if truth else 1)
        for l in loads_in(v):
            a = S.t(l)
            if l in c[3] and (("lt0", add(a, C(-1))) in fs or ("eq0", a) in fs):
                ok = (l, term)
    if ok is None:
        rep.bad("quiet", w, "wait", "the storage is enlarged without waiting for the other threads to finish writing into it")
    else:
        l, term = ok
        lp = cfg.innermost_loop(l.block)
        if lp is None or lp is R.L or lp.header is R.L.header or not (lp.blocks < R.L.blocks):
            rep.bad("quiet", w, "loop", "the number of writers is looked at once, not waited on")
        elif not fresh(lp, l):
            rep.bad("quiet", w, "flush", "the wait for the other writers never re-reads their number")
        else:
            rep.ok("quiet", w)
        # nobody may start in between: the number of writers only grows inside this section
        me = S.t(l.ops[0])
        for i in R.f.insts():
            if i.op == "atomicrmw" and S.t(i.ops[0]) == me and grows(i):
                if R.in_crit(i) is None or R.in_crit(i)[2].name != c[2].name:
                    rep.bad("quiet", R.where(i), "start", "a thread registers as a writer outside the mutual-exclusion "
                            "section: it may start while the storage is being enlarged")
                elif i in c[3] and cfg.path_inst(i, e, lambda x: x in c[1]):
                    rep.bad("quiet", w, "self", "the storage is enlarged after this thread registered as a writer")
    # refresh of the cached addresses
    st, ks = KIND[e.callee_name()]
    obj = S.t(e.ops[0])
    if obj not in objs:
        # nothing of this object is written in the region
        rep.ok("refresh", w)
        return
    refreshed(R, e, c, obj, st, ks, objs)


def fresh(lp, l):
    """is the number of writers really looked at again on each trip (flush, atomic, volatile or a call in the loop)?"""
    if l.op != "load" or l.volatile or l.ordering:
        return True
    for b in lp.blocks:
        for i in b.insts:
            if i.op == "fence" or i.op == "call" and not (i.callee_name() or "").startswith("llvm."):
                return True
    return False


def loads_in(v, seen=None):
    out, todo, seen = [], [v], set()
    while todo:
        v = todo.pop()
        if v in seen or v.kind != "inst":
            continue
        seen.add(v)
        if v.op == "load":
            out.append(v)
        elif v.op in ("atomicrmw",):
            out.append(v)
        else:
            todo += [o for o in v.ops if hasattr(o, "kind")]
    return out


def grows(i):
    """atomicrmw adding a positive constant"""
    return i.rmw == "add" and i.ops[1].kind == "int" and i.ops[1].val > 0 or \
        i.rmw == "sub" and i.ops[1].kind == "int" and i.ops[1].val < 0


def shrinks(i):
    return i.rmw == "sub" and i.ops[1].kind == "int" and i.ops[1].val > 0 or \
        i.rmw == "add" and i.ops[1].kind == "int" and i.ops[1].val < 0


def refreshed(R, e, c, obj, st, ks, objs):
    rep, S = R.rep, R.S
    w = R.where(e)
    for i, s, k in objs[obj]:
        if s != st or k not in ks:
            continue
        p = i.ops[1].ops[0] if i.ops[1].kind == "inst" and i.ops[1].op == "gep" else i.ops[1]
        for l in ptr_loads(R, p):
            a = S.t(l.ops[0])
            if l.block not in R.L.blocks or not cfg.inst_dominates(c[0], l):
                rep.bad("refresh", R.where(i), "old", "the address written through was read before the section where the "
                        "storage may move")
                continue
            if a == ("fld", obj, st, k):
                rep.ok("refresh", R.where(i))
                continue
            # cached in a variable: refreshed after the enlargement, before the section ends
            rs = [x for x in c[3] if x.op == "store" and S.t(x.ops[1]) == a and S.t(x.ops[0]) == ("ld", ("fld", obj, st, k))
                  and newer(R, x, e)]
            if rs and all(not cfg.path_inst(e, end, lambda x: x in rs) for end in c[1]):
                rep.ok("refresh", R.where(i))
            else:
                rep.bad("refresh", R.where(i), "stale:%d" % k, "after an enlargement the cached address of this array is not "
                        "re-read before the section ends")


def newer(R, x, e):
    """the pointer stored by x was loaded after e"""
    l = strip(x.ops[0])
    return l.kind == "inst" and l.op == "load" and cfg.path_inst(e, l, lambda y: False) and not (
        l.block is e.block and l.block.insts.index(l) < e.block.insts.index(e)) and cfg.inst_dominates(e, l)


def ptr_loads(R, p):
    """loads the pointer comes from"""
    out, seen, todo = [], set(), [p]
    while todo:
        v = strip(todo.pop())
        if v in seen:
            continue
        seen.add(v)
        if v.kind != "inst":
            continue
        if v.op == "gep":
            todo.append(v.ops[0])
        elif v.op == "phi":
            todo += list(v.ops)
        elif v.op == "select":
            todo += list(v.ops[1:])
        elif v.op == "load":
            out.append(v)
    return out


# ------------------------------------------------------------------------------------------------ writers in progress
def registration(R, mine):
    """every write happens between the registration (in the section) and the sign-off of the thread"""
    rep, S = R.rep, R.S
    if not mine:
        return None
    ups = [i for b in R.L.blocks for i in b.insts if i.op == "atomicrmw" and grows(i) and R.in_crit(i)]
    downs = [i for b in R.L.blocks for i in b.insts if i.op == "atomicrmw" and shrinks(i)]
    pairs = {}
    for a in ups:
        pairs.setdefault(S.t(a.ops[0]), ([], []))[0].append(a)
    for a in downs:
        if S.t(a.ops[0]) in pairs:
            pairs[S.t(a.ops[0])][1].append(a)
    waited = set()
    for b in R.L.blocks:
        for e in b.insts:
            if e.op == "call" and e.callee_name() in KIND:
                for v, truth, term in cfg.dominating_conditions(e.block):
                    if hasattr(v, "kind"):
                        waited |= {S.t(l.ops[0]) for l in loads_in(v) if R.in_crit(l)}
    pairs = {k: v for k, v in pairs.items() if not waited or k in waited}
    if not pairs:
        for s in mine:
            rep.bad("writer", R.where(s[0]), "none", "entries are written without registering as a writer first")
        return None
    W, (ups, downs) = next(iter(pairs.items()))
    # no plain store to the counter in the loop
    for b in R.L.blocks:
        for i in b.insts:
            if i.op == "store" and S.t(i.ops[1]) == W:
                rep.bad("writer", R.where(i), "plain", "the number of writers is changed without an atomic operation")
    for s in mine:
        i = s[0]
        if not any(cfg.inst_dominates(a, i) for a in ups):
            rep.bad("writer", R.where(i), "before", "entries may be written by a thread that is not registered as a writer")
        elif any(cfg.path_inst(d, i, lambda x: x in ups or x is R.L.header.insts[0]) for d in downs):
            rep.bad("writer", R.where(i), "after", "entries are written after the thread signed off as a writer")
        else:
            rep.ok("writer", R.where(i))
    for a in ups:
        if len(ups) != 1 or not (a.ops[1].kind == "int" and abs(a.ops[1].val) == 1):
            rep.bad("writer", R.where(a), "up", "a thread registers more than once per row")
        esc = par.escapes(R.L, a, downs)
        if esc is not None or not downs:
            rep.bad("writer", R.where(a), "off", "on some path the thread never signs off as a writer: an enlargement would wait "
                    "for ever")
        else:
            rep.ok("writer", R.where(a))
    for d in downs:
        if not any(cfg.inst_dominates(a, d) for a in ups) or any(
                cfg.path_inst(d, x, lambda y: y in ups or y is R.L.header.insts[0]) for x in downs):
            rep.bad("writer", R.where(d), "down", "a thread signs off more often than it registers")
        elif abs(d.ops[1].val) != 1:
            rep.bad("writer", R.where(d), "down", "a thread signs off for more than itself")
        else:
            rep.ok("writer", R.where(d))
    return W


# ------------------------------------------------------------------------------------------------ reservations
def reserve(R, obj, stores, ext, W):
    rep, S, L = R.rep, R.S, R.L
    # the counter that positions the entries of this object
    cnt = {}
    for i, st, k in stores:
        rt = roots(R, i)
        bad = [v for v in rt if not (v.kind == "inst" and v.op == "load" and R.in_crit(v))]
        if bad or not rt:
            rep.bad("reserve", R.where(i), "root", "the position written does not come from a counter read inside the "
                    "mutual-exclusion section")
            continue
        for v in rt:
            cnt.setdefault(S.t(v.ops[0]), []).append((i, st, k, v))
    for a, uses in cnt.items():
        c = R.in_crit(uses[0][3])
        sts = [x for b in L.blocks for x in b.insts if x.op == "store" and S.t(x.ops[1]) == a]
        ins = [x for x in sts if x in c[3]]
        if len(ins) != 1 or len(sts) != 1:
            rep.bad("reserve", R.where(uses[0][0]), "counter", "the counter of stored entries is not advanced exactly once, "
                    "inside the mutual-exclusion section")
            continue
        st = ins[0]
        need = add(S.t(st.ops[0]), ("ld", a), -1)
        if any(x == ("ld", a) for x in walk(need)):
            rep.bad("reserve", R.where(st), "advance", "the counter of stored entries is not advanced by an amount of its own")
            continue
        starts = set()
        for (i, sk, k, v) in uses:
            if R.in_crit(v) is not c:
                rep.bad("reserve", R.where(i), "section", "the position was read in another section than the one reserving it")
                continue
            ends = set(c[1])
            late = cfg.path_inst(st, v, lambda x: x in ends)
            early = cfg.path_inst(v, st, lambda x: x in ends)
            if late == early:
                rep.bad("reserve", R.where(v), "order", "reading the position and reserving the room are not ordered")
                continue
            if early and any(cfg.path_inst(v, e, lambda x: x is st) for e in ends):
                rep.bad("reserve", R.where(v), "path", "on some path the position is taken but no room is reserved")
            starts.add((v, late))
            rep.ok("reserve", R.where(i))
        if need[0] == "c":
            # a fixed number of slots
            for (i, sk, k, v) in uses:
                f0 = start_form(R, i.ops[1].ops[-1], a, need, starts)
                if f0 is None or not 0 <= f0 < need[1]:
                    rep.bad("amount", R.where(i), "slot", "the position written is not among those reserved")
                else:
                    rep.ok("amount", R.where(i))
        else:
            amount(R, obj, a, st, need, uses, starts)
        if not [e for e in ext if S.t(e.ops[0]) == obj]:
            continue            # its room is fixed beforehand
        capacity(R, obj, a, st, need, c, ext, uses[0][1])
        rowptr(R, obj, uses, c)


def start_form(R, v, a, need, starts):
    """value v as  (counter before the reservation) + constant"""
    k = 0
    n = 0
    while n < 40:
        n += 1
        v = strip(v)
        if v.kind == "inst" and v.op in ("add", "sub") and v.ops[1].kind == "int":
            k += v.ops[1].val if v.op == "add" else -v.ops[1].val
            v = v.ops[0]
            continue
        for (l, late) in starts:
            if v is l and not late:
                return k
        if v.kind == "inst" and v.op == "sub":
            for (l, late) in starts:
                if strip(v.ops[0]) is l and late and R.S.t(v.ops[1]) == need:
                    return k
        if v.kind == "inst" and v.op == "load":
            r = R.u.resolve(v)
            if r is not v:
                v = r
                continue
        return None
    return None


def amount(R, obj, a, st, need, uses, starts):
    """as many entries are written as were reserved"""
    rep, S, L = R.rep, R.S, R.L
    w = R.where(st)
    # counting
    cl = None
    base = 0
    for x in L.blocks:
        for ph in x.phis:
            d = add(need, ("phi", ph), -1)
            if d[0] == "c" and ph.type in ("i32", "i64"):
                for lp in cfg.loops(R.f):
                    if lp.header is x and lp is not L:
                        cl, cph, base = lp, ph, d[1]
    if cl is None:
        rep.bad("amount", w, "count", "the amount of room reserved is not the number of entries counted for the row")
        return
    init = [S.t(v) for v, p in cph.incoming if p not in cl.blocks]
    if len(set(init)) != 1 or init[0][0] != "c":
        rep.bad("amount", w, "count0", "the count of the entries of the row does not start from a constant")
        return
    base += init[0][1]
    cr = [r for r in loop_ranges(S, cl) if not [x for x in r.others if x[1].term.op != "unreachable"]]
    cases1 = cases(R, cl, cph, cr)
    if not cr or cases1 is None:
        rep.bad("amount", w, "count1", "the loop counting the entries of the row may stop early or cannot be followed")
        return
    # writing
    webs = {}
    straight = {}
    for (i, sk, k, v) in uses:
        ix = i.ops[1].ops[-1]
        lp = cfg.innermost_loop(i.block)
        if lp is L or lp is None:
            f0 = start_form(R, ix, a, need, starts)
            if f0 is None:
                rep.bad("amount", R.where(i), "index", "the position written is not inside the room reserved")
            else:
                straight.setdefault(k, set()).add(f0)
        else:
            webs.setdefault(lp, []).append((i, k))
    if len(webs) != 1:
        rep.bad("amount", w, "loops", "the entries of the row are not written by one loop")
        return
    wl, ss = next(iter(webs.items()))
    wph = None
    for ph in wl.header.phis:
        if any(ph in chain(i.ops[1].ops[-1]) for i, k in ss):
            wph = ph
    if wph is None:
        rep.bad("amount", w, "pos", "the position does not advance in the loop writing the entries")
        return
    inits = [start_form(R, v, a, need, starts) for v, p in wph.incoming if p not in wl.blocks]
    if any(x is None for x in inits) or len(set(inits)) != 1:
        rep.bad("amount", w, "start", "the entries are not written from the start of the room reserved")
        return
    n0 = inits[0]
    ks = {k for _, k in ss}
    for k in ks:
        if straight.get(k, set()) != set(range(n0)):
            rep.bad("amount", w, "first", "the first entries of the room reserved are not written")
            return
    if n0 != base:
        rep.bad("amount", w, "base", "the room reserved for the first entries differs from what is written")
        return
    wr = [r for r in loop_ranges(S, wl) if not [x for x in r.others if x[1].term.op != "unreachable"]]
    shift = add(wr[0].lo, cr[0].lo, -1) if wr else C(0)
    cases2 = cases(R, wl, wph, wr, ss, shift)
    if not wr or cases2 is None:
        rep.bad("amount", w, "write1", "the loop writing the entries of the row may stop early, skips an array or cannot be "
                "followed")
        return
    if shift[0] != "c" or add(wr[0].hi, cr[0].hi, -1) != shift:
        rep.bad("amount", w, "range", "entries are written over another range (%s..%s) than they were counted over (%s..%s)" % (
            show(wr[0].lo), show(wr[0].hi), show(cr[0].lo), show(cr[0].hi)))
        return

    def fixed(at):
        # the object is there
        if at[0] in ("eq0", "ne0") and at[1][0] == "pdiff" and obj in at[1][1:]:
            return at[0] == "ne0"
        return None
    d = trips.same_function(cases1, cases2, fixed)
    if d is not None:
        rep.bad("amount", w, "predicate", "the entries counted and the entries written are not selected by the same test")
        return
    rep.ok("amount", w)
    # what the tests read is not changed in between
    arrays = set()
    for c in cases1:
        for f in c[0]:
            for t in walk(f):
                if t[0] == "ld":
                    arrays.add(el_split(t[1])[0])
    for b in L.blocks:
        if b in cl.blocks:
            continue
        for i in b.insts:
            if i.op == "store" and el_split(S.t(i.ops[1]))[0] in arrays and S.t(i.ops[1])[0] == "el":
                hi = wl.header.insts[0]
                if cfg.path_inst(cl.header.insts[0], i, lambda x: x is L.header.insts[0]) and \
                        cfg.path_inst(i, hi, lambda x: x is L.header.insts[0]) and not cfg.path_inst(
                            i, cl.header.insts[0], lambda x: x is L.header.insts[0]):
                    rep.bad("amount", R.where(i), "changed", "what decides which entries are kept is changed between counting "
                            "and writing them")


def chain(v):
    """phis reached from v through added constants and phis"""
    out, todo = set(), [v]
    while todo:
        v = strip(todo.pop())
        if v in out:
            continue
        if v.kind == "inst" and v.op == "phi":
            out.add(v)
            todo += list(v.ops)
        elif v.kind == "inst" and v.op in ("add", "sub"):
            todo += [o for o in v.ops if o.kind == "inst"]
    return out


def cases(R, lp, ph, rs, ss=None, shift=C(0)):
    """[(conditions, increment of ph)] of the paths of one trip; with ss, each increment must come with its stores"""
    if not rs:
        return None
    S = R.S
    rg = rs[0]
    ps = trips.trips(S, lp)
    if ps is None:
        return None
    stay = set(edge_facts(S, rg.exit_block, 0 if rg.exit_block.term.targets[0] in lp.blocks else 1))
    out = []
    for p in ps:
        x = p.out(ph)
        ds = p.deltas(S, x, ph) if x is not None else None
        if ds is None or any(k < 0 for _, k in ds):
            return None
        d = ds[0][1] if ds else 0
        if ss is not None:
            if any(k != d for _, k in ds):
                return None
            got = {}
            for i, k in ss:
                if i.block in p.set:
                    o = p.delta(i.ops[1].ops[-1], ph)
                    if o is None:
                        return None
                    got.setdefault(k, set()).add(o)
            for k in {k for _, k in ss}:
                if got.get(k, set()) != set(range(d)):
                    return None
        for more, k in ds:
            fs = [absent(subst(f, lambda t: add(CTR, shift) if t == rg.term else None)) for f in list(p.facts) + list(more)
                  if f not in stay]
            out.append((fs, k))
    return out


def absent(f):
    """an inverse permutation holds -1 or an index:  q[j] == -1  is  q[j] < 0"""
    if f[0] in ("eq0", "ne0"):
        d, k = to_poly(f[1])
        if len(d) == 1 and k == 1 and list(d.values()) == [1]:
            m = next(iter(d))
            if len(m) == 1 and m[0][0] == "ld":
                return ("lt0", m[0]) if f[0] == "eq0" else ("lt0", add(C(-1), m[0], -1))
    return f


def capacity(R, obj, a, st, need, c, ext, sname):
    rep, S, L = R.rep, R.S, R.L
    w = R.where(st)
    mine = [e for e in ext if S.t(e.ops[0]) == obj and e in c[3]]
    # edges on which the room is known to suffice (or the object is absent)
    okedge = set()
    maxs = {("ld", obj), ("ld", ("fld", obj, sname, 0))}
    ms = {norm_hi(r) for lp in cfg.loops(R.f) if lp.blocks < L.blocks for r in loop_ranges(S, lp)}
    tests = []
    for b in L.blocks:
        t = b.term
        if t.op != "br" or len(t.targets) != 2:
            continue
        for k in (0, 1):
            for fct in edge_facts(S, b, k):
                if fct[0] == "lt0":
                    d, kk = to_poly(fct[1])
                    mx = [x for x in maxs if d.get((x,)) == -1]
                    if mx and d.get((("ld", a),)) == 1:
                        rest = add(add(fct[1], mx[0]), ("ld", a), -1)      # need' - 1  (or need')
                        n1 = add(rest, C(1))
                        if enough(R, n1, need, ms):
                            okedge.add((b, t.targets[k]))
                            tests.append(b)
                if fct[0] == "eq0" and fct[1][0] == "pdiff" and obj in fct[1][1:]:
                    okedge.add((b, t.targets[k]))
                if fct[0] == "or" or fct[0] == "not":
                    # not (object there and not enough room)
                    alts = fct[1:] if fct[0] == "or" else ()
                    if alts and all(good_alt(R, x, obj, a, maxs, need, ms) for x in alts):
                        okedge.add((b, t.targets[k]))
                        tests.append(b)
    for b in set(tests):
        if cfg.path_inst(st, b.term, lambda x: x in c[1]):
            rep.bad("capacity", w, "late", "the capacity is tested after the room was already counted")
            return
    # is there a way to the reservation that neither tests nor enlarges?
    start = c[0].block
    es = set(mine)
    seen = set()
    stack = [(start, start.insts.index(c[0]) + 1)]
    hit = False
    while stack and not hit:
        b, k = stack.pop()
        stop = False
        for x in b.insts[k:]:
            if x is st:
                hit = True
                break
            if x in es:
                stop = True
                break
        if stop or hit:
            continue
        for s in b.succs:
            if (b, s) in okedge or s in seen:
                continue
            seen.add(s)
            stack.append((s, 0))
    if hit:
        rep.bad("capacity", w, "test", "room for the row is reserved without checking that the storage is large enough for it")
        return
    for e in mine:
        arg = S.t(e.ops[1])
        good = False
        for mx in maxs:
            d = add(arg, mx, -1)
            if enough(R, d, need, ms):
                good = True
        if not good:
            good = enough(R, add(arg, ("ld", a), -1), need, ms)
        if good:
            rep.ok("capacity", R.where(e))
        else:
            rep.bad("capacity", R.where(e), "grow", "the enlarged storage need not have room for the row")
    rep.ok("capacity", w)


def good_alt(R, x, obj, a, maxs, need, ms):
    if x[0] == "eq0" and x[1][0] == "pdiff" and obj in x[1][1:]:
        return True
    if x[0] == "lt0":
        d, kk = to_poly(x[1])
        mx = [y for y in maxs if d.get((y,)) == -1]
        if mx and d.get((("ld", a),)) == 1:
            return enough(R, add(add(add(x[1], mx[0]), ("ld", a), -1), C(1)), need, ms)
    return False


def enough(R, t, need, ms):
    """t >= need, where need is the number of entries counted over a range ending at one of ms"""
    d = add(t, need, -1)
    if nonneg(d):
        return True
    d0, k0 = to_poly(need)
    for m in ms:
        # need <= base + (m - lo) <= m + base for a count starting at base
        d = add(t, m, -1)
        if nonneg(d) and k0 <= 0 and len(d0) == 1 and counts_below(R, need, m):
            return True
    return False


def norm_hi(r):
    """upper end of the range once its lower end is a plain quantity"""
    d, k = to_poly(r.lo)
    return add(r.hi, C(-k))


def counts_below(R, need, m):
    """the counter starts at 0 and runs over a range ending at m (lower end not negative)"""
    if need[0] != "phi":
        return False
    ph = need[1]
    for lp in cfg.loops(R.f):
        if lp.header is ph.block:
            init = {R.S.t(v) for v, p in ph.incoming if p not in lp.blocks}
            return init == {C(0)} and any(norm_hi(r) == m for r in loop_ranges(R.S, lp))
    return False


def nonneg(t):
    d, k = to_poly(t)
    return k >= 0 and all(v >= 0 for v in d.values())


def rowptr(R, obj, uses, c):
    """the end of the row is recorded at the row number reserved in the same section"""
    rep, S, L = R.rep, R.S, R.L
    if uses[0][1] != "spasm_csr":
        return
    wl = [cfg.innermost_loop(i.block) for i, _, _, _ in uses if cfg.innermost_loop(i.block) is not L]
    found = False
    for b in L.blocks:
        for i in b.insts:
            if i.op != "store":
                continue
            base, idx = el_split(S.t(i.ops[1]))
            if base != ("ld", ("fld", obj, "spasm_csr", 3)):
                continue
            found = True
            ix = i.ops[1].ops[-1] if i.ops[1].kind == "inst" and i.ops[1].op == "gep" else None
            rt = leafs(R, ix) if ix is not None else set()
            ok = bool(rt)
            for v in rt:
                if not (v.kind == "inst" and v.op == "load" and v in c[3]):
                    ok = False
                    continue
                a = S.t(v.ops[0])
                sts = [x for x in c[3] if x.op == "store" and S.t(x.ops[1]) == a]
                others = [x for b2 in L.blocks for x in b2.insts if x.op == "store" and S.t(x.ops[1]) == a]
                ends = set(c[1])
                if len(sts) != 1 or len(others) != 1 or add(S.t(sts[0].ops[0]), ("ld", a), -1) != C(1):
                    ok = False
                    continue
                late = cfg.path_inst(sts[0], v, lambda x: x in ends)
                off = add(idx, ("ld", a), -1)
                if off != C(0 if late else 1):
                    ok = False
            if not ok:
                rep.bad("row", R.where(i), "row", "the end of the row is not recorded at a row number reserved in the section")
                continue
            v = strip(i.ops[0])
            good = chain(v) & set(ph for l in wl for ph in l.header.phis) if wl else set()
            if not good:
                # start + amount
                rep.bad("row", R.where(i), "value", "the end of the row recorded is not the position reached by writing it")
            elif any(i.block in l.blocks for l in wl):
                rep.bad("row", R.where(i), "inside", "the end of the row is recorded before all its entries are written")
            else:
                p = [ph for l in wl for ph in l.header.phis if ph in good]
                if S.t(v) in {("phi", q) for q in p}:
                    rep.ok("row", R.where(i))
                else:
                    rep.bad("row", R.where(i), "value", "the end of the row recorded is not the position reached by writing it")
    if not found:
        rep.bad("row", fname(R.f), "norow", "the end of the rows is never recorded")


def check(b, rep):
    rep.rule("lock", "storage shared by the threads is enlarged only inside a mutual-exclusion section")
    rep.rule("quiet", "the enlargement waits until no thread is registered as a writer, and threads register only inside the "
             "same section, after any enlargement")
    rep.rule("refresh", "every write goes through an address read after the section, re-read after an enlargement")
    rep.rule("writer", "entries are written only between registering (in the section) and signing off (atomically, once, on "
             "every path)")
    rep.rule("reserve", "positions come from a counter read and advanced together inside the section")
    rep.rule("amount", "the amount reserved is the number of entries written: same range, same test, unchanged data")
    rep.rule("capacity", "every reservation is preceded by a capacity test that covers it, or by an enlargement that does")
    rep.rule("row", "the end of each row is recorded at the row number reserved in the section")
    M = b.lib()
    n = 0
    for u in pts.units(M):
        if not u.fn.calls("__kmpc_fork_call"):
            continue
        S = Sym(u, M)
        for f in u.fns:
            if f is u.fn:
                continue
            for ws in par.ws_loops(S, f):
                n += run_region(rep, S, u, f, ws)
    rep.extra["regions"] = n
    rep.need("lock", 4)
    rep.need("quiet", 4)
    rep.need("refresh", 6)
    rep.need("writer", 12)
    rep.need("amount", 4)
    rep.need("capacity", 4)
    rep.need("row", 3)
    rep.expl = ("Each work-shared loop that assembles a sparse result is analysed as a protocol over LLVM IR: critical sections, "
                "atomic updates, reservations and stores are matched by dominance and path rules; counting and writing loops are "
                "compared as functions of their tests.")
    rep.assumptions = ["OpenMP critical sections exclude each other and atomic updates are indivisible", "the capacity field of a "
                       "matrix is at least its number of entries", "an inverse permutation holds -1 or an index"]


if __name__ == "__main__":
    sys.exit(run("P04", check))
