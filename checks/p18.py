"""P18: scratch space shared between successive searches / iterations is handed over clean."""
from common import *
import pts
import cfg
from sym import Sym, C, add, el_split, walk, show, to_poly
from fills import all_fills, before, CTR
from ranges import edge_facts
import par

SOLVE = {"spasm_sparse_triangular_solve": (3, 4, 5)}            # xj, x, qinv
ACCUM = {"spasm_scatter": (3,), "spasm_xApy": (2,), "spasm_Axpy": (2,)}
READS = {"spasm_solve": 1, "spasm_xApy": 0, "spasm_dense_back_solve": 1, "spasm_dense_forward_solve": 1}
WRITES = {"spasm_solve": (2,), "spasm_dense_back_solve": (2,), "spasm_dense_forward_solve": (2,)}


def nm(i, f=None):
    return "%s %s" % ((f or i.block.fn).name.replace(".omp_outlined", "").replace("_debug__", ""), i.loc)


# ----------------------------------------------------------------------------------------------- the searches
def reach(rep, M):
    rep.rule("unmark", "every column marked by a graph search is unmarked on every way out of spasm_reach")
    u = pts.units(M, ["spasm_reach"])[0]
    S = Sym(u, M)
    for f in u.fns:
        fs = all_fills(S, f)
        calls = list(f.calls("spasm_dfs"))
        for c in calls:
            marks = S.t(c.ops[5])
            xj = S.t(c.ops[3])
            mb, mo = el_split(marks)
            good = []
            for x in fs:
                if not x.whole() or x.guards or x.val != C(0):
                    continue
                # marks[xj[ctr]]
                if x.base == mb and x.kind == "store" and x.rng is not None:
                    at = add(x.idx, mo, -1)
                    if at[0] == "ld" and at[1] == elt(xj, CTR):
                        if covers_pattern(S, u, f, x, c):
                            good.append(x)
                            continue
                    if at == CTR and x.lo == C(0) and x.hi == m_of(S, u):
                        good.append(x)
                        continue
                if x.kind == "mem" and x.base == mb and add(x.lo, mo, -1) == C(0) and \
                        x.hi == ("bytes", poly_scale(m_of(S, u), 4)):
                    good.append(x)
            heads = set()
            for x in good:
                heads.add(x.loop.header if x.loop is not None and x.kind != "mem" else x.site)
            bad = ret_escape(f, c, heads)
            if bad is not None:
                rep.bad("unmark", nm(c), "reach", "after this search a path returns without unmarking all the columns "
                        "the search recorded")
            else:
                rep.ok("unmark", nm(c))
            # nothing is marked after the clean-up
            for x in fs:
                if x.base == mb and x.kind == "store" and x.val[0] == "c" and x.val != C(0):
                    rep.bad("unmark", nm(x.site), "remark", "columns are marked outside the recorded search")
    for g in ("spasm_reach",):
        for w in callers(M, g):
            U, SS, i = w
            # the pattern is xj[top:l]: the length given must be the width of the matrix searched
            if SS.t(i.ops[3]) == ("ld", fieldterm(SS.t(i.ops[0]), 2)):
                rep.ok("unmark", nm(i))
            else:
                rep.bad("unmark", nm(i), "length", "spasm_reach is called with a length that is not the number of "
                        "columns of the matrix: marks beyond it would stay set")


def poly_scale(t, k):
    from sym import mul
    return mul(t, C(k))


def m_of(S, u):
    return ("ld", fieldterm(("arg", 0), 2))


def fieldterm(base, k):
    return ("fld", base, "spasm_csr", k)


def elt(base, i):
    from sym import el
    return el(base, i)


def covers_pattern(S, u, f, x, call):
    """the fill runs over [top, m) with top the result of the last search"""
    ok_hi = x.hi in (("arg", 3), m_of(S, u))
    lo = x.lo
    ph = lo[1] if lo[0] == "phi" else None
    if lo == ("call", "spasm_dfs", call):
        return ok_hi
    if ph is None:
        return False
    web, todo = set(), [ph]
    leaves = set()
    while todo:
        p = todo.pop()
        if p in web:
            continue
        web.add(p)
        for v, _ in p.incoming:
            if v.kind == "inst" and v.op == "phi":
                todo.append(v)
            else:
                leaves.add(S.t(v))
    if not leaves <= {m_of(S, u), ("call", "spasm_dfs", call)} or ("call", "spasm_dfs", call) not in leaves:
        return False
    # the search continues from the current top
    return ok_hi and (S.t(call.ops[2]) in {("phi", p) for p in web} | {m_of(S, u)})


def ret_escape(f, c, heads):
    hb = {h for h in heads if hasattr(h, "insts")}
    hi = {h for h in heads if not hasattr(h, "insts")}
    b = c.block
    if any(i in hi for i in b.insts[b.insts.index(c) + 1:]):
        return None
    if b.term.op == "ret":
        return b
    seen, st = set(), list(b.succs)
    while st:
        x = st.pop()
        if x in seen or x in hb:
            continue
        seen.add(x)
        if any(i in hi for i in x.insts):
            continue
        if x.term.op == "ret":
            return x
        st += x.succs
    return None


_units = {}


def lib_units(M):
    if "u" not in _units:
        _units["u"] = [(u, Sym(u, M)) for u in pts.units(M) if not u.fn.name.startswith("spasm_SHA256")]
    return _units["u"]


def callers(M, name):
    out = []
    for u, S in lib_units(M):
        for f in u.fns:
            for i in f.calls(name):
                out.append((u, S, i))
    return out


# ------------------------------------------------------------------------------------------- spasm_dfs
def dfs(rep, M):
    rep.rule("record", "a column leaves the search stack only by being recorded: on every trip the stack and the output "
             "move together, and only columns on the stack are marked")
    u = pts.units(M, ["spasm_dfs"])[0]
    S = Sym(u, M)
    f = u.fn
    xj, marks = ("arg", 3), ("arg", 5)
    outer = [L for L in cfg.loops(f) if L.parent is None]
    work = [L for L in outer if any(i.op == "store" and el_split(S.t(i.ops[1]))[0] == xj for b in L.blocks for i in b.insts)]
    if not work:
        rep.bad("record", "spasm_dfs", "loop", "no loop recording columns found")
        return
    L = work[0]
    # top and head: header phis
    rets = [S.t(i.ops[0]) for i in f.insts() if i.op == "ret" and i.ops]
    top = head = None
    for ph in L.header.phis:
        if any(("phi", ph) in set(walk(r)) for r in rets):
            top = ph
    if top is None:
        rep.bad("record", "spasm_dfs", "top", "what is returned is not the position reached by the search")
        return
    cand = [ph for ph in L.header.phis if ph is not top and any(
        S.t(v) == C(0) for v, p in ph.incoming if p not in L.blocks) and ph.type in ("i32", "i64")]
    # enumerate the paths of one trip
    npaths = [0]
    for h in cand:
        ok, why, site = paths(S, f, L, top, h, xj, marks, npaths)
        if ok:
            rep.ok("record", "spasm_dfs %s" % h.id)
            head = h
            break
        last = (why, site)
    if head is None:
        if not cand:
            rep.bad("record", "spasm_dfs", "head", "no stack pointer found in the search")
        else:
            rep.bad("record", "spasm_dfs %s" % (last[1].loc if last[1] is not None else ""), "path", last[0])
    # search goes on as long as the stack is not empty
    if head is not None:
        for (b, t) in L.exits():
            if t.term.op == "unreachable":
                continue
            k = 0 if b.term.op == "br" and len(b.term.targets) == 2 and b.term.targets[0] is t else 1
            fs = edge_facts(S, b, k)
            ok = False
            for c in fs:
                if c[0] == "lt0":
                    d, kk = to_poly(c[1])
                    vs = [m for m in d if d[m] == 1]
                    late = b is not L.header and any(
                        i.op == "store" and i.block in L.blocks and cfg.dominates(i.block, b) for i in f.insts())
                    if len(d) == 1 and len(vs) == 1 and (kk == 0 or (kk == -1 and late)) and headish(S, L, vs[0], head):
                        ok = True
            if ok:
                rep.ok("record", "spasm_dfs exit %s" % b.term.loc)
            else:
                rep.bad("record", "spasm_dfs %s" % b.term.loc, "exit", "the search may stop while columns are still on "
                        "its stack")


def headish(S, L, m, head):
    if len(m) != 1:
        return False
    t = m[0]
    if t == ("phi", head):
        return True
    if t[0] == "phi":
        # a phi joining the versions of head inside the loop
        return any(any(x is head for x, _ in [(p.ops[0] if p.op in ("add", "sub") else p, 0)])
                   for p, _ in t[1].incoming if p.kind == "inst") or all(
            S.t(v) in (("phi", head), add(("phi", head), C(-1)), add(("phi", head), C(1))) for v, _ in t[1].incoming)
    return False


def clash(a, b):
    """two facts that cannot hold together"""
    for x, y in ((a, b), (b, a)):
        if x[0] == "eq0" and y[0] == "lt0":
            for e in (x[1], add(C(0), x[1], -1)):
                d, k = to_poly(add(y[1], e, -1))
                if not d and k >= 0:
                    return True
        if x[0] == "lt0" and y[0] == "lt0":
            d, k = to_poly(add(x[1], y[1]))
            if not d and k >= -1:
                return True
        if x[0] in ("eq0", "ne0") and y[0] == ("ne0" if x[0] == "eq0" else "eq0") and x[1] == y[1]:
            return True
    return False


def paths(S, f, L, top, head, xj, marks, count, limit=4000):
    """walk every acyclic path of one trip round L (inner loops taken 0/1 times)"""
    H, T = ("phi", head), ("phi", top)
    st = [(L.header, None, {head: 0, top: 0}, (), frozenset(), frozenset())]
    n = 0
    while st:
        b, prev, env, ev, seen, known = st.pop()
        n += 1
        if n > limit:
            return False, "too many paths", None
        env = dict(env)
        if prev is not None:
            new = {}
            for ph in b.phis:
                if ph in (head, top):
                    continue
                for v, p in ph.incoming:
                    if p is prev:
                        x = delta(S, v, env, head, top)
                        if x is not None:
                            new[ph] = x
            env.update(new)
        ev = list(ev)
        for i in b.insts:
            if i.op == "store":
                base, idx = el_split(S.t(i.ops[1]))
                if base == xj:
                    ev.append(("xj", rel(S, gepidx(i), env, head, top, idx), i))
                elif base == marks and S.t(i.ops[0]) != C(0):
                    ld = loadof(S, xj, gepidx(i), env, head, top)
                    if any(e[0] == "xj" and e[1] == ("h", 1) and S.t(e[2].ops[0]) == idx for e in ev):
                        ld = ("h", 0)
                    ev.append(("mark", ld, i))
        seen = seen | {b}
        for s in b.succs:
            more = frozenset(edge_facts(S, b, 0 if b.term.op == "br" and b.term.targets[0] is s else 1))
            if any(clash(x, y) for x in more for y in known):
                continue
            if s is L.header:
                hd = td = None
                for ph in (head, top):
                    for v, p in ph.incoming:
                        if p is b:
                            x = delta(S, v, env, head, top)
                            if ph is head:
                                hd = x
                            else:
                                td = x
                r = judge(hd, td, ev, env)
                if r is not None:
                    return False, r[0], r[1]
                count[0] += 1
            elif s not in L.blocks:
                continue
            elif s in seen:
                r = judge(("h", 0), ("t", 0), [e for e in ev if e[0] == "mark"], env)
                if r is not None:
                    return False, r[0], r[1]
            else:
                st.append((s, b, env, tuple(ev), seen, known | more))
    return True, None, None


def delta(S, v, env, head, top):
    """v as an offset from head ('h', k) / top ('t', k) at the start of the trip"""
    k = 0
    while True:
        if v is head:
            return ("h", k)
        if v is top:
            return ("t", k)
        if v.kind == "inst" and v.op in ("sext", "zext", "trunc", "freeze"):
            v = v.ops[0]
        elif v.kind == "inst" and v.op == "add" and v.ops[1].kind == "int":
            k += v.ops[1].val
            v = v.ops[0]
        elif v.kind == "inst" and v.op == "sub" and v.ops[1].kind == "int":
            k -= v.ops[1].val
            v = v.ops[0]
        elif v in env and v.kind == "inst" and v.op == "phi":
            e = env[v]
            if isinstance(e, tuple):
                return (e[0], e[1] + k)
            return None
        else:
            return None


def gepidx(i):
    p = i.ops[1]
    return p.ops[-1] if p.kind == "inst" and p.op == "gep" else None


def rel(S, v, env, head, top, idx):
    if v is None:
        return None
    return delta(S, v, env, head, top)


def loadof(S, xj, v, env, head, top):
    """index v is xj[k]: return k's offset"""
    while v is not None and v.kind == "inst" and v.op in ("sext", "zext", "trunc", "freeze"):
        v = v.ops[0]
    if v is None or v.kind != "inst":
        return None
    if v.op == "load":
        p = v.ops[0]
        if el_split(S.t(p))[0] == xj:
            return delta(S, p.ops[-1], env, head, top) if p.kind == "inst" and p.op == "gep" else None
    return None


def judge(hd, td, ev, env):
    """one trip: head moved by hd, top by td, with the stores ev"""
    if hd is None or hd[0] != "h":
        return "the stack pointer changes in an unknown way", None
    if td is None or td[0] != "t":
        return "the output position changes in an unknown way", None
    h, t = hd[1], td[1]
    rec = [e for e in ev if e[0] == "xj" and e[1] is not None and e[1][0] == "t"]
    psh = [e for e in ev if e[0] == "xj" and e[1] is not None and e[1][0] == "h"]
    for e in ev:
        if e[0] == "xj" and e[1] is None:
            return "a column is written at an unknown position of the pattern", e[2]
        if e[0] == "mark" and (e[1] is None or e[1] != ("h", 0)):
            return "a column that is not on top of the search stack is marked", e[2]
    if h < 0 or t < 0:
        if h != -1 or t != -1:
            return ("a column leaves the search stack without being recorded in the pattern" if t == 0 else
                    "the stack and the recorded pattern do not move together"), (ev[-1][2] if ev else None)
        if not any(e[1] == ("t", -1) for e in rec):
            return "a popped column is not written into the pattern", None
    if h > 0:
        if h != 1 or not any(e[1] == ("h", 1) for e in psh):
            return "the stack grows without its new element being written", None
    return None


# --------------------------------------------------------------------------------- the triangular solver
def solver(rep, M):
    rep.rule("clear", "the sparse triangular solver clears x on its whole pattern before the first scatter, and the dense "
             "solvers clear their solution")
    u = pts.units(M, ["spasm_sparse_triangular_solve"])[0]
    S = Sym(u, M)
    f = u.fn
    fs = all_fills(S, f)
    x, xj = ("arg", 4), ("arg", 3)
    m = m_of(S, u)
    good = []
    for c in f.calls("spasm_reach", "spasm_dfs"):
        topt = ("call", c.callee_name(), c)
        for g in fs:
            if g.base != x or g.val != C(0) or g.guards or not g.whole():
                continue
            if g.idx == ("ld", elt(xj, CTR)) and g.lo == topt and g.hi == m:
                good.append(g)
            elif g.idx == CTR and g.lo == C(0) and g.hi == m:
                good.append(g)
            elif g.kind == "mem" and g.lo == C(0) and g.hi == ("bytes", poly_scale(m, 4)):
                good.append(g)
    uses = [i for i in f.calls("spasm_scatter") if S.t(i.ops[3]) == x]
    for i in f.insts():
        if i.op == "load" and el_split(S.t(i.ops[0]))[0] == x:
            uses.append(i)
        if i.op == "store" and el_split(S.t(i.ops[1]))[0] == x and not any(g.site is i for g in good):
            uses.append(i)
    for i in uses:
        if any(before(g, i) for g in good):
            rep.ok("clear", nm(i))
        else:
            rep.bad("clear", nm(i), "x", "x is used before it was cleared on the whole pattern of the solution")
    for name in ("spasm_dense_back_solve", "spasm_dense_forward_solve"):
        u = pts.units(M, [name])[0]
        S = Sym(u, M)
        f = u.fn
        fs = all_fills(S, f)
        x = ("arg", 2)
        n = ("ld", fieldterm(("arg", 0), 1))
        good = [g for g in fs if g.base == x and g.val == C(0) and not g.guards and g.whole() and g.lo == C(0) and (
            (g.idx == CTR and g.hi == n) or (g.kind == "mem" and g.hi == ("bytes", poly_scale(n, 4))))]
        for i in f.insts():
            if i.op == "store" and el_split(S.t(i.ops[1]))[0] == x and not any(g.site is i for g in good):
                if any(before(g, i) for g in good):
                    rep.ok("clear", nm(i))
                else:
                    rep.bad("clear", nm(i), "dense", "the solution vector is not cleared before it is filled")
        if not good:
            rep.bad("clear", name, "dense0", "the solution vector is not cleared over its whole length")


# --------------------------------------------------------------------------------- users of the scratch space
def iteration_of(S, f, i, wss):
    """innermost enclosing loop that is an iteration for i: the work-shared one, else the innermost loop"""
    for w in wss:
        if i.block in w.loop.blocks:
            return w.loop
    return None


def users(rep, M):
    rep.rule("xj", "the three-part work area handed to the triangular solver is zeroed over its full size before the first "
             "use")
    rep.rule("accumulate", "vectors accumulated into, or read beyond the pattern, are zeroed over their whole length in the "
             "same iteration, before")
    rep.rule("labels", "per-thread tables modified during an iteration are initialised in full before the loop and back in "
             "their initial state on every path to the next iteration")
    for u, S in lib_units(M):
        for f in u.fns:
            solves = [i for i in f.calls(*SOLVE)]
            reaches = [i for i in f.calls("spasm_reach", "spasm_dfs")] if u.fn.name not in (
                "spasm_reach", "spasm_sparse_triangular_solve", "spasm_dfs") else []
            accs = [i for i in f.calls(*ACCUM)]
            wss = par.ws_loops(S, f) if f is not u.fn else []
            if not (solves or reaches or accs or wss):
                continue
            fs = all_fills(S, f)
            roots = set()
            for i in solves:
                zeroed(rep, S, f, fs, i, i.ops[3], wss)
                roots |= {S.t(i.ops[3]), S.t(i.ops[4])}
                beyond(rep, S, f, fs, i, wss)
            for i in reaches:
                zeroed(rep, S, f, fs, i, i.ops[4 if i.callee_name() == "spasm_reach" else 5], wss)
                roots |= {S.t(i.ops[k]) for k in ((4,) if i.callee_name() == "spasm_reach" else (3, 4, 5))}
            done = set()
            for i in accs:
                for k in ACCUM[i.callee_name()]:
                    t = el_split(S.t(i.ops[k]))[0]
                    if par.alloc_of(S, t) is None or par.alloc_of(S, t)[0].block.fn is not f:
                        continue
                    if t in [S.t(j.ops[4]) for j in solves]:
                        continue
                    roots.add(t)
                    accumulator(rep, S, f, fs, i, t, wss)
            for w in wss:
                labels(rep, S, u, f, fs, w, roots)


def good_zero(S, g, t, al):
    return g.base == t and g.val == C(0) and par.covers_all(S, g, al)


def zeroed(rep, S, f, fs, i, op, wss):
    t = S.t(op)
    al = par.alloc_of(S, t)
    if al is None:
        if t[0] in ("arg", "oarg"):
            return
        rep.bad("xj", nm(i), "origin", "the work area of the triangular solver does not come from an allocation")
        return
    if al[2] or any(good_zero(S, g, t, al) and before(g, i) for g in fs):
        rep.ok("xj", nm(i))
    else:
        rep.bad("xj", nm(i), "xj:%s" % i.callee_name(), "the work area of the triangular solver is not zeroed over its whole "
                "size before this call")


def from_pattern(S, idx, xj):
    """an index taken out of xj"""
    return idx[0] == "ld" and el_split(idx[1])[0] == xj


def beyond(rep, S, f, fs, c, wss):
    """reads of x outside the pattern need a full clear in the iteration"""
    x, xj = S.t(c.ops[4]), S.t(c.ops[3])
    al = par.alloc_of(S, x)
    if al is None:
        return
    L = iteration_of(S, f, c, wss)
    for i in f.insts():
        use = False
        if i.op == "load":
            b, k = el_split(S.t(i.ops[0]))
            if b == x and not from_pattern(S, k, xj) and cfg.path_inst(c, i):
                # x[j] at the very column selected from the pattern (possibly through a variable)
                if not all(from_pattern(S, q, xj) or poly_scale(q, 4) == al[1] for q in leaves(S, k)):
                    use = True
        elif i.op == "call" and i is not c:
            n = i.callee_name() or ""
            if n in ("free", "spasm_sparse_triangular_solve") or n.startswith("llvm."):
                continue
            if n in ("spasm_xApy", "spasm_Axpy", "spasm_solve", "spasm_dense_back_solve", "spasm_dense_forward_solve"):
                use = any(S.t(o) == x for o in i.ops)
        if not use:
            continue
        if any(good_zero(S, g, x, al) and before(g, c) and (L is None or g.site.block in L.blocks) for g in fs):
            rep.ok("accumulate", nm(i))
        else:
            rep.bad("accumulate", nm(i), "beyond", "x is read outside the pattern of the solution, but it is not cleared "
                    "entirely before the solve of this iteration")


def leaves(S, t):
    out, seen, todo = set(), set(), [t]
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        if t[0] == "phi":
            for v, _ in t[1].incoming:
                todo.append(S.t(v))
        elif t[0] == "sel":
            todo += [t[2], t[3]]
        elif t[0] in ("min", "max"):
            todo += [t[1], t[2]]
        elif t[0] == "c" and t[1] < 0:
            continue
        elif t[0] == "undef":
            continue
        else:
            out.add(t)
    return out


def accumulator(rep, S, f, fs, i, t, wss):
    al = par.alloc_of(S, t)
    L = iteration_of(S, f, i, wss)
    if al[2] and L is None and cfg.innermost_loop(al[0].block) is cfg.innermost_loop(i.block):
        rep.ok("accumulate", nm(i))
        return
    if al[2] and L is not None and al[0].block in L.blocks:
        rep.ok("accumulate", nm(i))
        return
    full = [g for g in fs if init_full(S, g, t, al)]
    heads = {head_of(g) for g in full}
    for c in f.calls(*READS):
        if S.t(c.ops[READS[c.callee_name()]]) == t and c is not i and reuse(c, i, heads):
            rep.bad("accumulate", nm(i), "reuse", "the vector accumulated into still holds the contents used at %s" % c.loc)
            return
    inside = [g for g in full if (L is None or g.site.block in L.blocks) and before(g, i)]
    if inside:
        rep.ok("accumulate", nm(i))
        return
    if L is not None:
        first = al[2] or any(before(g, i) for g in full if g.site.block not in L.blocks)
        end = [g.loop.header if g.kind != "mem" else g.site for g in full if g.val == C(0) and g.site.block in L.blocks]
        if first and end and par.escapes(L, i, end) is None:
            rep.ok("accumulate", nm(i))
            return
    rep.bad("accumulate", nm(i), "acc", "the vector accumulated into is not reset over its whole length before this use")


def reuse(c, i, heads):
    """a path from the consumer c to the accumulation i that resets nothing"""
    hb = {h for h in heads if hasattr(h, "insts")}
    st = [(c.block, c.block.insts.index(c) + 1)]
    seen = set()
    while st:
        b, k = st.pop()
        stop = False
        for x in b.insts[k:]:
            if x is i:
                return True
            if x in heads:
                stop = True
                break
        if not stop:
            for s in b.succs:
                if s not in seen and s not in hb:
                    seen.add(s)
                    st.append((s, 0))
    return False


def init_full(S, g, t, al):
    """sets every element (to zero, or to a copy of another vector)"""
    return g.base == t and par.covers_all(S, g, al) and g.val is not None and (
        g.val == C(0) or (g.val[0] == "ld" and el_split(g.val[1])[1] == CTR))


def labels(rep, S, u, f, fs, w, known):
    """tables private to the thread, modified in the loop and looked up by data-dependent indices"""
    L = w.loop
    cand = {}
    for i in f.insts():
        if i.op != "load" or i.block not in L.blocks:
            continue
        b, k = el_split(S.t(i.ops[0]))
        al = par.alloc_of(S, b)
        if al is None or al[0].block.fn is not f or al[0].block in L.blocks or b in known:
            continue
        if any(x[0] == "ld" for q in leaves(S, k) for x in walk(q)):
            cand.setdefault(b, (al, i))
    for c in f.calls(*SOLVE):
        b = S.t(c.ops[5])
        al = par.alloc_of(S, b)
        if al is not None and al[0].block.fn is f and c.block in L.blocks:
            cand.setdefault(b, (al, c))
    for b, (al, use) in cand.items():
        if any(i.op == "call" and i.block in L.blocks and (i.callee_name() in WRITES) and
               S.t(i.ops[WRITES[i.callee_name()][0]]) == b for i in f.insts()):
            continue
        mine = [g for g in fs if g.base == b]
        initial = [g for g in mine if g.site.block not in L.blocks and init_full(S, g, b, al)
                   and (cfg.dominates(g.loop.header if g.kind != "mem" else g.site.block, L.header))]
        if not initial and not al[2]:
            # cleared at the start of every iteration instead
            if any(init_full(S, g, b, al) and g.site.block in L.blocks and before(g, use) for g in mine):
                rep.ok("labels", nm(use))
            else:
                rep.bad("labels", nm(use), "init", "a per-thread table is looked up without having been initialised over "
                        "its whole size")
            continue
        init = initial[0].val if initial else C(0)
        stores = [g for g in mine if g.site.block in L.blocks]
        dirty = [g for g in stores if g.val != init or init != C(0)]
        if not dirty:
            rep.ok("labels", nm(use))
        for g in dirty:
            restore(rep, S, f, fs, w, b, al, init, g, stores)


def head_of(g):
    return g.loop.header if g.kind != "mem" and g.rng is not None and g.loop is not None else g.site


def restore(rep, S, f, fs, w, b, al, init, g, stores):
    L = w.loop
    same = add(g.idx, C(0))
    real = rename_back(g)
    # is g itself putting back the initial value?
    if is_initial(S, w, b, init, g):
        return
    via = []
    if init == C(0):
        for z in stores:
            if z.val != C(0) or z.guards:
                continue
            if par.covers_all(S, z, al):
                via.append(head_of(z))
            elif z.whole() and z.rng is not None and g.rng is not None and z.idx == g.idx and z.lo == g.lo and z.hi == g.hi \
                    and z.rng.loop is not L:
                via.append(head_of(z))
            elif z.rng is not None and z.rng.loop is not L and z.whole() and z.idx[0] == "ld":
                q, k = el_split(z.idx[1])
                if k == CTR and z.lo == C(0) and queued(S, f, w, g, q, z):
                    via.append(head_of(z))
            elif z.rng is None or z.rng.loop is L:
                if rename_back(z) == real:
                    via.append(z.site)
    else:
        for z in stores:
            if rename_back(z) == real and is_initial(S, w, b, init, z):
                via.append(z.site)
            if init_full(S, z, b, al) and z.val == init and not z.guards:
                via.append(head_of(z))
    esc = par.escapes(L, g.site, via)
    if esc is None:
        rep.ok("labels", nm(g.site))
    else:
        rep.bad("labels", nm(g.site), "restore", "this entry of the per-thread table %s reaches the next iteration without "
                "being put back to its initial state on every path" % show(b).split("@")[0])


def rename_back(g):
    from sym import subst
    if g.rng is None:
        return g.idx
    t = g.rng.term
    return subst(g.idx, lambda a: t if a == CTR else None)


def is_initial(S, w, b, init, g):
    from sym import subst
    if init == C(0):
        return g.val == C(0)
    v = g.val
    if g.rng is not None:
        t = g.rng.term
        v = subst(v, lambda a: t if a == CTR else None)
    ix = rename_back(g)
    if v == w.iv:
        return True                       # the pivot of the row of this iteration (asserted at the start of the iteration)
    ob = el_split(init[1])[0]
    if v == ("ld", elt(ob, ix)):
        return True
    if v == ("ld", elt(b, ix)):
        # a saved copy: loaded before the table is changed
        i = g.site.ops[0]
        while i.kind == "inst" and i.op in ("sext", "trunc", "zext"):
            i = i.ops[0]
        return i.kind == "inst" and i.op == "load"
    return False


def queued(S, f, w, g, q, z):
    """the entry marked by g is appended to the list q, whose length z.hi accounts for every append"""
    L = w.loop
    ap = []
    for i in f.insts():
        if i.op == "store" and i.block in L.blocks and el_split(S.t(i.ops[1]))[0] == q:
            ap.append(i)
    j = rename_back(g)
    mate = None
    for i in ap:
        if S.t(i.ops[0]) == j and (i.block is g.site.block or (
                cfg.dominates(i.block, g.site.block) or cfg.dominates(g.site.block, i.block)) and
                (cfg.postdominates(i.block, g.site.block) or cfg.postdominates(g.site.block, i.block))):
            mate = i
    if mate is None:
        return False
    hi = z.hi
    if hi[0] != "phi":
        return False
    # the web of versions of the length
    web, adds, todo = set(), set(), [hi[1]]
    while todo:
        p = todo.pop()
        if p in web:
            continue
        web.add(p)
        for v, _ in p.incoming:
            while v.kind == "inst" and v.op in ("sext", "zext", "trunc"):
                v = v.ops[0]
            if v.kind == "inst" and v.op == "phi":
                todo.append(v)
            elif v.kind == "inst" and v.op == "add" and v.ops[1].kind == "int" and v.ops[1].val == 1:
                adds.add(v)
                o = v.ops[0]
                if o.kind == "inst" and o.op == "phi":
                    todo.append(o)
                elif o.kind == "inst" and o.op == "add":
                    adds.add(o)
            elif v.kind == "int" and v.val == 0 or v.kind == "undef":
                pass
            else:
                return False
    # every append writes at a version of the length and advances it
    for i in ap:
        p = i.ops[1]
        ix = p.ops[-1] if p.kind == "inst" and p.op == "gep" else None
        while ix is not None and ix.kind == "inst" and ix.op in ("sext", "zext", "trunc"):
            ix = ix.ops[0]
        if ix is None or not (ix in web or ix in adds or (ix.kind == "int" and ix.val == 0)):
            return False
        nx = [a for a in adds if a.ops[0] is ix and (a.block is i.block or cfg.dominates(a.block, i.block) or
                                                    cfg.dominates(i.block, a.block))]
        if ix.kind != "int" and not nx:
            return False
        for a in nx:
            if stale(a, z, web, adds, L):
                return False
    return True


def stale(a, z, web, adds, L):
    """from the new version a, is an older version picked up by a phi of the web (or by the clean-up)?"""
    for ph in web:
        for v, p in ph.incoming:
            while v.kind == "inst" and v.op in ("sext", "zext", "trunc"):
                v = v.ops[0]
            if v is a:
                continue
            if v.kind in ("int", "undef"):
                if v.kind == "int" and reaches(a, p, {L.header}):
                    return True
                continue
            if reaches(a, p, {v.block, L.header} if v.block is not a.block else {L.header}, v):
                return True
    h = z.rng.loop.header
    v = z.hi[1]
    pre = [b for b in h.preds if b not in z.rng.loop.blocks]
    return any(reaches(a, b, {v.block, L.header}, v) for b in pre)


def reaches(a, target, avoid, v=None):
    """a path from just after a to the end of block target that does not enter a block of `avoid`"""
    if v is not None and v.kind == "inst" and v.block is a.block and v.op != "phi":
        if a.block.insts.index(v) > a.block.insts.index(a):
            return False
    if a.block is target:
        return True
    seen, st = set(), list(a.block.succs)
    while st:
        b = st.pop()
        if b in seen or b in avoid:
            continue
        if b is target:
            return True
        seen.add(b)
        st += b.succs
    return False


def check(b, rep):
    M = b.lib()
    _units.clear()
    reach(rep, M)
    dfs(rep, M)
    solver(rep, M)
    users(rep, M)
    rep.need("unmark", 2)
    rep.need("record", 1)
    rep.need("clear", 4)
    rep.need("xj", 6)
    rep.need("accumulate", 4)
    rep.need("labels", 4)
    rep.expl = ("Loop-range and dataflow analysis over LLVM IR: every write of marks, patterns, accumulators and per-thread "
                "tables is described by the index range it covers, and path rules require the clean-up on every path to the "
                "next use.")
    rep.assumptions = ["the row of the current iteration is the one whose pivot the table records (asserted in the code)"]


if __name__ == "__main__":
    sys.exit(run("P18", check))
