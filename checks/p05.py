"""P05: no two threads touch the same memory without synchronisation, one of them writing."""
from common import *
import pts
import cfg
import par
import effects
from sym import Sym, C, add, mul, el_split, walk, show, to_poly
from ranges import loop_ranges, edge_facts
from fills import CTR
import p04
from par import WIDTH

RUNTIME = ("__kmpc_", "omp_", "llvm.")
PRINTS = {"fprintf", "fflush", "printf", "putchar", "puts", "fputs", "fputc", "fwrite", "perror"}
PURE = {"spasm_wtime", "spasm_get_thread_num", "spasm_get_num_threads", "omp_get_thread_num", "omp_get_num_threads",
        "spasm_human_format"}
FREES = {"free", "spasm_csr_free", "spasm_triplet_free", "spasm_lu_free", "spasm_dm_free"}
fname = p04.fname


class Access:
    def __init__(self, inst, locs, write, atomic, ptr, deep=False):
        self.inst, self.locs, self.write, self.atomic, self.ptr, self.deep = inst, locs, write, atomic, ptr, deep


def private(f, l):
    root = l[0]
    return root[0] in ("alloca", "call") and root[1].block.fn is f and (root[0] == "alloca" or fresh(root[1]))


def fresh(c):
    n = c.callee_name() or ""
    return n in ("malloc", "calloc", "realloc", "spasm_malloc", "spasm_calloc", "spasm_realloc") or n.endswith("_alloc")


class Effects:
    """what functions of the library write, computed from their bodies: {argument: paths}, static data"""

    def __init__(self, M):
        self.M, self.memo = M, {}

    def of(self, name):
        if name in self.memo:
            return self.memo[name]
        self.memo[name] = ({}, set())
        fs = [f for f in self.M.defined() if f.name == name]
        if not fs:
            r = {p: {()} for p in effects.written_positions(name, 12)}
            if name in FREES:
                r.setdefault(0, set()).add(())
            self.memo[name] = (r, set())
            return self.memo[name]
        u = pts.Unit(fs[0]).solve()
        args, globs = {}, set()

        def note(ls, i):
            for root, path in ls:
                if root[0] == "arg":
                    args.setdefault(root[1], set()).add(path)
                elif root[0] == "glob":
                    globs.add((root[1], i))
                elif root[0] == "unk":
                    globs.add(("?", i))
        for i in u.insts():
            if i.op == "store":
                note(u.of(i.ops[1]), i)
            elif i.op in ("atomicrmw", "cmpxchg"):
                note(u.of(i.ops[0]), i)
            elif i.op == "call":
                n = i.callee_name() or ""
                if not n or n in effects.FORKS:
                    continue
                if n.startswith("llvm.") and n not in effects.EXT_WRITES:
                    continue
                w, g = self.of(n)
                globs |= g
                for p in w:
                    if p < len(i.ops) and i.ops[p].type == "ptr":
                        note(under(u.of(i.ops[p]), w[p]), i)
        self.memo[name] = (args, globs)
        return self.memo[name]


    def element(self, name, k):
        """argument holding the index of the only element written through argument k, or None"""
        if name == "spasm_datatype_write":          # interface of the C++ side: A[i] = value
            return 1 if k == 0 else None
        fs = [f for f in self.M.defined() if f.name == name]
        if not fs:
            return None
        u = pts.Unit(fs[0]).solve()
        S = Sym(u, self.M)
        got = set()
        for i in u.insts():
            if i.op == "store" and any(r == ("arg", k) for r, _ in u.of(i.ops[1])):
                b, x = el_split(S.t(i.ops[1]))
                got.add(x[1] if b == ("arg", k) and x[0] == "arg" else None)
            elif i.op == "call" and any(p < len(i.ops) and i.ops[p].type == "ptr" and any(
                    r == ("arg", k) for r, _ in u.of(i.ops[p])) for p in self.of(i.callee_name() or "")[0]):
                got.add(None)
        return next(iter(got)) if len(got) == 1 else None


def under(locs, paths):
    return {(r, (p + q)[:pts.MAXP + 2]) for r, p in locs for q in paths}


def accesses(u, f, E):
    out = []
    for i in f.insts():
        if i.op == "load":
            out.append(Access(i, u.of(i.ops[0]), False, bool(i.ordering), i.ops[0]))
        elif i.op == "store":
            out.append(Access(i, u.of(i.ops[1]), True, bool(i.ordering), i.ops[1]))
        elif i.op in ("atomicrmw", "cmpxchg"):
            out.append(Access(i, u.of(i.ops[0]), True, True, i.ops[0]))
        elif i.op == "call":
            n = i.callee_name() or ""
            if not n or n in effects.FORKS or n.startswith("__kmpc_") or n.startswith("llvm.") and n not in effects.EXT_WRITES:
                continue
            w, g = E.of(n)
            for k, o in enumerate(i.ops):
                if o.type != "ptr" or o.kind in ("null", "func", "global"):
                    continue
                if not (n in p04.KIND and k == 0 and not (i.ops[1].kind == "int" and i.ops[1].val < 0)):
                    out.append(Access(i, u.of(o), False, False, o, True))      # (their count of entries is read only for -1)
                if k in w:
                    out.append(Access(i, under(u.of(o), w[k]), True, False, o, True))
    return out


def overlap(a, b):
    for (r1, p1) in a.locs:
        for (r2, p2) in b.locs:
            if r1 != r2:
                continue
            if p1 == p2:
                return True
            if a.deep and p2[:len(p1)] == p1:
                return True
            if b.deep and p1[:len(p2)] == p2:
                return True
    return False


def phases(f):
    """inst -> set of phase starts reaching it without a barrier"""
    starts = [f.entry.insts[0]]
    bars = set()
    for i in f.insts():
        if i.op == "call" and (i.callee_name() or "") == "__kmpc_barrier":
            bars.add(i)
            starts.append(i)
    out = {}
    for s in starts:
        seen = set()
        st = [(s.block, s.block.insts.index(s) + (1 if s in bars else 0))]
        while st:
            b, k = st.pop()
            stop = False
            for x in b.insts[k:]:
                out.setdefault(x, set()).add(s)
                if x in bars:
                    stop = True
                    break
            if not stop:
                for t in b.succs:
                    if t not in seen:
                        seen.add(t)
                        st.append((t, 0))
    return out


class Reg:
    def __init__(self, rep, S, u, f, M, E):
        self.rep, self.S, self.u, self.f, self.M, self.E = rep, S, u, f, M, E
        self.crit = par.criticals(f)
        self.ws = par.ws_loops(S, f)
        self.ph = phases(f)
        self.regions = [p04.Region(rep, S, u, f, w) for w in self.ws]
        self.single = self.singles()
        self.commit = self.commits()

    def crit_of(self, i):
        return {c[2].name for c in self.crit if i in c[3]}

    def singles(self):
        """blocks run by one thread only: {block: token}"""
        out = {}
        for i in self.f.insts():
            if i.op == "call" and (i.callee_name() or "") in ("__kmpc_single", "__kmpc_master", "__kmpc_masked"):
                a = self.S.t(i)
                for b in self.f.blocks:
                    for v, truth, term in cfg.dominating_conditions(b):
                        if hasattr(v, "kind") and ("ne0", a) in edge_facts(self.S, term.block, 0 if truth else 1):
                            out[b] = ("one", i if "single" in i.callee_name() else "master")
            if i.op == "call" and (i.callee_name() or "") in ("spasm_get_thread_num", "omp_get_thread_num"):
                a = self.S.t(i)
                for b in self.f.blocks:
                    for v, truth, term in cfg.dominating_conditions(b):
                        if hasattr(v, "kind") and ("eq0", a) in edge_facts(self.S, term.block, 0 if truth else 1):
                            out[b] = ("one", "master")
        return out

    def reduce(self, i):
        """inside the runtime's reduction protocol"""
        for v, truth, term in cfg.dominating_conditions(i.block):
            if not hasattr(v, "kind"):
                continue
            c = p04.strip(v)
            if c.kind == "inst" and c.op == "call" and (c.callee_name() or "").startswith("__kmpc_reduce"):
                return True
        for b in self.f.blocks:
            t = b.term
            if t.op == "switch":
                c = p04.strip(t.ops[0])
                if c.kind == "inst" and c.op == "call" and (c.callee_name() or "").startswith("__kmpc_reduce") and any(
                        cfg.dominates(s, i.block) for s in b.succs if len(s.preds) == 1):
                    return True
        return False

    # -- protocols
    def writer(self, i):
        """counters of writers this instruction is protected by, with the section where the thread registered"""
        out = set()
        for R in self.regions:
            if i.block not in R.L.blocks:
                continue
            for b in R.L.blocks:
                for a in b.insts:
                    if a.op == "atomicrmw" and p04.grows(a) and R.in_crit(a) and cfg.inst_dominates(a, i):
                        W = self.S.t(a.ops[0])
                        downs = [d for x in R.L.blocks for d in x.insts if d.op == "atomicrmw" and p04.shrinks(d)
                                 and self.S.t(d.ops[0]) == W]
                        if downs and not any(cfg.path_inst(d, i, lambda x: x is a or x is R.L.header.insts[0])
                                             for d in downs):
                            out.add((W, R.in_crit(a)[2].name))
        return out

    def enlarger(self, i):
        """the instruction runs in a section after waiting for the number of writers to be zero"""
        out = set()
        for c in self.crit:
            if i not in c[3]:
                continue
            for v, truth, term in cfg.dominating_conditions(i.block):
                if not hasattr(v, "kind"):
                    continue
                fs = edge_facts(self.S, term.block, 0 if truth else 1)
                for l in p04.loads_in(v):
                    a = self.S.t(l)
                    if l in c[3] and (("lt0", add(a, C(-1))) in fs or ("eq0", a) in fs):
                        out.add((self.S.t(l.ops[0]), c[2].name))
        return out

    def busy_wait(self, l):
        """the read only decides whether to look again"""
        if l.op != "load" or not self.crit_of(l):
            return False
        L = cfg.innermost_loop(l.block)
        if L is None or any(L is w.loop for w in self.ws):
            return False
        uses = users(self.f)
        seen, todo = set(), [l]
        exits = {b for b, s in L.exits()}
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for x in uses.get(v, ()):
                if x.op == "br":
                    if x.block not in exits and x.block in L.blocks:
                        return False
                    continue
                if x.op in ("icmp", "zext", "sext", "trunc", "xor", "and", "or", "phi", "select"):
                    todo.append(x)
                    continue
                return False
        return p04.fresh(L, l) and not any(i.op in ("store", "atomicrmw", "cmpxchg") for b in L.blocks for i in b.insts)

    def commits(self):
        """blocks of a section where the shared counter was seen equal to the thread's snapshot: {inst: (ws, snapshot)}"""
        out = {}
        for w in self.ws:
            snaps = [i for b in w.loop.blocks for i in b.insts if i.op == "load" and i.ordering
                     and not self.crit_of(i)]
            for c in self.crit:
                for i in c[3]:
                    for v, truth, term in cfg.dominating_conditions(i.block):
                        if not hasattr(v, "kind"):
                            continue
                        for l in p04.loads_in(v):
                            if l not in c[3]:
                                continue
                            a = self.S.t(l)
                            for s in snaps:
                                if self.S.t(s.ops[0]) != self.S.t(l.ops[0]):
                                    continue
                                for x in edge_facts(self.S, term.block, 0 if truth else 1):
                                    if x[0] == "eq0" and a in walk_terms(x[1]):
                                        out[i] = (w, s)
        return out

    # -- indices
    def keys(self, acc):
        """ways in which the element touched belongs to this thread alone: set of keys; two accesses with a common key are
        made by the same thread (or never to the same element)"""
        i = acc.inst
        out = set()
        S = self.S
        plus = None
        if acc.deep and not (i.callee_name() or "").startswith(("memset", "memcpy", "llvm.mem")):
            ks = [k for k, o in enumerate(i.ops) if o is acc.ptr]
            j = self.E.element(i.callee_name() or "", ks[0]) if len(ks) == 1 and acc.write else None
            if j is None or j >= len(i.ops):
                return out
            plus = S.t(i.ops[j])
        for w in self.ws:
            if i.block not in w.loop.blocks:
                continue
            for base, idx, width in self.addresses(acc.ptr):
                if plus is not None:
                    idx = add(idx, plus)
                elif acc.deep:
                    blk = self.block_row(w, i, base, idx, width, acc)
                    if blk:
                        out.add(blk)
                    continue
                d, k = to_poly(idx)
                mine = {m: v for m, v in d.items() if w.iv in m}
                if mine and set(mine) == {(w.iv,)} and len(d) == 1:
                    out.add(("iv", w.loop.header, mine[(w.iv,)], k))
                b = self.block_row(w, i, base, idx, width, acc)
                if b:
                    out.add(b)
                if self.distinct_pivot(w, idx):
                    out.add(("pivot", w.loop.header))
        s = self.slot(acc)
        if s:
            out.add(s)
        return out

    def addresses(self, p, depth=0):
        """(base term, index term, element width)"""
        S = self.S
        if depth > 6:
            return []
        if p.kind == "inst" and p.op == "gep" and not p.srctype.startswith(("%", "[")):
            w = WIDTH.get(p.srctype, 0)
            out = []
            for b, i, w0 in self.addresses(p.ops[0], depth + 1):
                t = S.t(p.ops[1])
                if w0 == w or i == C(0):
                    out.append((b, add(i, t), w))
            return out
        if p.kind == "inst" and p.op in ("phi", "select"):
            out = []
            for o in (p.ops if p.op == "phi" else p.ops[1:]):
                if o.kind not in ("undef", "null"):
                    out += self.addresses(o, depth + 1)
            return out
        t = S.t(p)
        if t[0] == "el":
            b, i = el_split(t)
            return [(b, i, 0)]
        return [(t, C(0), 0)]

    def block_row(self, w, i, base, idx, width, acc):
        """row w.iv of a two-dimensional block: idx = iv * ld + inner, 0 <= inner < ld"""
        d, k = to_poly(idx)
        ld = None
        rest = idx
        for m, v in d.items():
            if w.iv in m:
                other = list(m)
                other.remove(w.iv)
                if w.iv in other:
                    return None
                t = C(v)
                for x in other:
                    t = mul(t, x)
                ld = t if ld is None else add(ld, t)
                rest = add(rest, mul(t, w.iv), -1)
        if ld is None:
            return None
        if acc.deep and (i.callee_name() or "").startswith(("memset", "memcpy", "llvm.mem")):
            n = self.S.t(i.ops[2])
            if rest == C(0) and n == mul(ld, C(width or 1)):
                return ("row", w.loop.header, ld, base)
            return None
        if rest == C(0) and ld[0] != "c":
            return ("row", w.loop.header, ld, base)
        L = cfg.innermost_loop(i.block)
        while L is not None and L is not w.loop:
            for r in loop_ranges(self.S, L):
                if rest == r.term and r.lo == C(0) and r.hi == ld:
                    return ("row", w.loop.header, ld, base)
            L = L.parent
        return None

    def distinct_pivot(self, w, idx):
        """column of the first entry of row iv"""
        if idx[0] != "ld":
            return False
        b, i = el_split(idx[1])
        if i[0] != "ld" or b[0] != "ld" or b[1][0] != "fld" or b[1][2:] != ("spasm_csr", 4):
            return False
        b2, i2 = el_split(i[1])
        return b2 == ("ld", ("fld", b[1][1], "spasm_csr", 3)) and i2 == w.iv

    def slot(self, acc):
        """index taken from a shared counter advanced in the same indivisible step"""
        p = acc.ptr
        if acc.deep or p.kind != "inst" or p.op != "gep":
            return None
        got = set()
        for R in self.regions:
            if acc.inst.block not in R.L.blocks:
                continue
            rt = p04.leafs(R, p.ops[-1])
            if not rt:
                return None
            for v in rt:
                if v.kind == "inst" and v.op == "atomicrmw" and p04.grows(v):
                    off = add(self.S.t(p.ops[-1]), self.S.t(v), -1)
                    n = v.ops[1].val
                    if off[0] != "c" or not 0 <= off[1] < n:
                        return None
                    got.add(("slot", self.S.t(v.ops[0])))
                elif v.kind == "inst" and v.op == "load" and R.in_crit(v):
                    c = R.in_crit(v)
                    a = self.S.t(v.ops[0])
                    st = [x for x in c[3] if x.op == "store" and self.S.t(x.ops[1]) == a and any(
                        y == ("ld", a) for y in walk(self.S.t(x.ops[0])))]
                    if not st or acc.inst in c[3]:
                        return None
                    got.add(("slot", a))
                else:
                    return None
        return next(iter(got)) if len(got) == 1 else None

    # -- reads that only feed progress messages
    def reports(self, l):
        if l.op != "load":
            return False
        c = getattr(self, "_rep", None)
        if c is None:
            c = self._rep = {}
        if l not in c:
            c[l] = self._reports(l)
        return c[l]

    def _reports(self, l):
        uses = users(self.f)
        seen, todo = set(), [l]
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            for x in uses.get(v, ()):
                if x.op == "call":
                    n = x.callee_name() or ""
                    if n in PRINTS or n == "spasm_human_format" or n.startswith("llvm."):
                        continue
                    return False
                if x.op == "br" or x.op == "switch":
                    if not self.only_prints(x.block):
                        return False
                    continue
                if x.op == "store":
                    if x.ops[0] is v and all(private(self.f, q) for q in self.u.of(x.ops[1])):
                        al = [q[0][1] for q in self.u.of(x.ops[1])]
                        for y in self.f.insts():
                            if y.op == "load" and any(q[0][0] == "alloca" and q[0][1] in al for q in self.u.of(y.ops[0])):
                                todo.append(y)
                        continue
                    return False
                if x.op in ("load", "ret", "atomicrmw", "cmpxchg", "gep"):
                    return False
                todo.append(x)
        return True

    def only_prints(self, b):
        """what the branch ending block b decides is only whether messages are printed"""
        pd = cfg.ipdom(self.f)[0].get(b)
        if pd is None or not hasattr(pd, "phis"):
            return False
        seen, st = set(), [s for s in b.succs if s is not pd]
        while st:
            x = st.pop()
            if x in seen:
                continue
            if x is b:
                return False
            seen.add(x)
            for i in x.insts:
                if i.op == "store" and not all(private(self.f, q) for q in self.u.of(i.ops[1])):
                    return False
                if i.op in ("atomicrmw", "cmpxchg", "ret"):
                    return False
                if i.op == "call":
                    n = i.callee_name() or ""
                    if not (n in PRINTS or n in PURE or n.startswith("llvm.") and n not in effects.EXT_WRITES):
                        return False
            st += [s for s in x.succs if s is not pd]
        # no value is decided there either
        for ph in pd.phis:
            if len({id(v) if v.kind != "int" else ("int", v.val) for v, p in ph.incoming if p in seen or p is b}) > 1:
                return False
        return True


USERS = {}


def users(f):
    m = USERS.get(f)
    if m is None:
        m = {}
        for i in f.insts():
            for o in i.ops:
                if hasattr(o, "kind"):
                    m.setdefault(o, []).append(i)
        USERS[f] = m
    return m


def walk_terms(t):
    return list(walk(t))


def excused(R, a, b):
    """why a and b (one of them writing, same memory, same phase) never clash; None if they may"""
    if a.atomic and b.atomic:
        return "atomic"
    if R.crit_of(a.inst) & R.crit_of(b.inst):
        return "section"
    sa, sb = R.single.get(a.inst.block), R.single.get(b.inst.block)
    if sa is not None and sa == sb:
        return "one thread"
    if R.reduce(a.inst) and R.reduce(b.inst):
        return "reduction"
    for x, y in ((a, b), (b, a)):
        if not x.write and R.reports(x.inst):
            return "report"
        if not x.write and R.busy_wait(x.inst) and y.atomic:
            return "busy wait"
        if R.enlarger(x.inst) & R.writer(y.inst):
            return "protocol"
        if x.inst in R.commit and not y.write and y.inst.op == "load" and y.inst.type == "i32":
            w, s = R.commit[x.inst]
            if y.inst.block in w.loop.blocks and (cfg.inst_dominates(s, y.inst) or any(
                    k[0] == "iv" for k in R.keys(y))):
                return "validated"
    ka, kb = R.keys(a), R.keys(b)
    if ka & kb:
        return "own element"
    return None


def what(R, a):
    S = R.S
    for root, path in sorted(a.locs, key=str):
        s = {"arg": "argument %s", "alloca": "variable %s", "call": "memory from %s", "glob": "static %s"}.get(root[0], "%s")
        n = root[1]
        if hasattr(n, "op"):
            n = (n.callee_name() or "?") if n.op == "call" else (getattr(n, "name", None) or "?")
        for p in path:
            if p != "*":
                s += " ." + p[1].replace("struct.", "") + "#%d" % p[2]
        return s % (n,)
    return "memory"


def region(rep, S, u, f, M, E):
    R = Reg(rep, S, u, f, M, E)
    acc = accesses(u, f, E)
    shared = []
    for a in acc:
        a.locs = {l for l in a.locs if not private(f, l)}
        if a.locs:
            shared.append(a)
    # private memory stays private
    for i in f.insts():
        if i.op == "store" and i.ops[0].type == "ptr":
            if any(private(f, l) for l in u.of(i.ops[1])) or not any(private(f, l) for l in u.of(i.ops[0])):
                continue
            rep.bad("scratch", "%s %s" % (fname(f), i.loc), "escape", "the address of memory private to a thread is stored "
                    "where other threads can reach it")
    # static data
    for i in f.insts():
        if i.op == "call" and i.callee_name():
            n = i.callee_name()
            if n.startswith("__kmpc"):
                continue
            g = E.of(n)[1]
            for name, at in sorted(g, key=lambda x: (x[0], str(x[1].loc))):
                rep.bad("static", "%s %s" % (fname(f), i.loc), "static:" + name, "%s writes static data (%s, at %s): every "
                        "thread shares it" % (n, name, at.loc))
            if not g:
                rep.ok("static", "%s %s" % (fname(f), i.loc))
    done = set()
    nw = 0
    for x, a in enumerate(shared):
        if not a.write:
            continue
        nw += 1
        for y, b in enumerate(shared):
            if b.write and y < x:
                continue
            if not overlap(a, b):
                continue
            if not (R.ph.get(a.inst, set()) & R.ph.get(b.inst, set())):
                why = "barrier"
            elif a.inst is b.inst and a is not b:
                continue
            else:
                why = excused(R, a, b)
            w = "%s %s/%s" % (fname(f), a.inst.loc, b.inst.loc)
            if why is None:
                k = "race:%s" % what(R, a)
                if (w, k) not in done:
                    done.add((w, k))
                    rep.bad("race", w, k, "two threads may access %s at the same time, %s writing, without synchronisation" % (
                        what(R, a), "both" if b.write else "one"))
            else:
                rep.ok("race", w)
                rep.extra.setdefault("excuses", {}).setdefault(why, 0)
                rep.extra["excuses"][why] += 1
    return nw


def check(b, rep):
    rep.rule("race", "two accesses of different threads to the same memory, one writing, are both atomic, in the same section, "
             "separated by a barrier, or provably to distinct elements")
    rep.rule("scratch", "the address of a thread's private memory is not published")
    rep.rule("static", "functions called from a parallel region write no static data")
    M = b.lib()
    E = Effects(M)
    n = k = 0
    for u in pts.units(M):
        if not u.fn.calls("__kmpc_fork_call"):
            continue
        S = Sym(u, M)
        for f in u.fns:
            if f is u.fn or f not in u.forks:
                continue
            n += 1
            k += region(rep, S, u, f, M, E)
    rep.extra["regions"] = n
    rep.extra["shared writes"] = k
    rep.need("race", 60)
    rep.need("static", 20)
    rep.expl = ("Every load, store, atomic update and call of each parallel region is collected from LLVM IR and located by the "
                "points-to analysis; every pair touching common memory with a write must be excused by a synchronisation or an "
                "ownership rule.")
    rep.assumptions = ["distinct pointer arguments that are written do not overlap", "rand() and stdio lock internally",
                       "the pivot columns of distinct rows are distinct (P16)"]


if __name__ == "__main__":
    sys.exit(run("P05", check))
