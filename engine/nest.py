"""Loop nests as trees of symbolically executed straight-line paths, under an assumption on flags and null pointers.

A Tree describes a function under one mode (a decision procedure for some conditions).  `top()` gives the paths through the
function, loops standing for single events; `trips(L)` the paths of one trip round loop L, inner loops again opaque.
Along a path loads see earlier stores of the same path; two addresses may coincide only within one array."""
import cfg
import sym
from sym import C, add, el_split, subst, neg_cond, to_poly
from ranges import facts, loop_ranges
from trips import contradicts

HARMLESS = {"spasm_ZZp_add", "spasm_ZZp_sub", "spasm_ZZp_mul", "spasm_ZZp_axpy", "spasm_ZZp_inverse", "spasm_ZZp_init",
            "fprintf", "printf", "fflush", "fputs", "putc", "fputc", "puts", "spasm_wtime", "spasm_malloc", "spasm_calloc",
            "malloc", "calloc", "free", "spasm_csr_realloc", "spasm_triplet_realloc", "spasm_realloc", "spasm_nnz",
            "spasm_get_prime", "spasm_human_format", "spasm_csr_alloc", "spasm_triplet_alloc", "errx", "err", "warn",
            "__assert_fail", "spasm_row_weight", "warnx", "exit", "abort", "snprintf"}
SWAP = {"spasm_ZZp_add", "spasm_ZZp_mul"}


class Store:
    def __init__(self, addr, val, inst):
        self.addr, self.val, self.inst = addr, val, inst
        self.base, self.idx = el_split(addr)


class PSym(sym.Sym):
    def __init__(self, tree, region):
        sym.Sym.__init__(self, tree.u, tree.S.M)
        self.tree, self.region = tree, region

    def t(self, v):
        if v.kind == "inst" and v not in self.memo and v.block not in self.region:
            self.memo[v] = self.tree.norm(self.tree.S.t(v))
        return sym.Sym.t(self, v)

    def cond(self, t):
        c = sym.Sym.cond(self, t)
        d = self.tree.decide(c)
        return c if d is None else C(int(d))

    def icmp(self, v):
        c = sym.Sym.icmp(self, v)
        d = self.tree.decide(c)
        return c if d is None else C(int(d))

    def phi(self, v):
        return ("phi", v)

    def sel(self, c, a, b):
        if c in (C(0), C(1)):
            return a if c == C(1) else b
        if ("null",) in (a, b) and a != b:
            return ("sel", c, a, b)
        return sym.Sym.sel(self, c, a, b)


class Path:
    """events: Store | ('loop', L, {header phi: term at entry}, exit edge) | ('call', name, args, inst)"""

    def __init__(self, tree, region, header):
        self.tree = tree
        self.P = PSym(tree, region)
        self.header = header
        self.facts = ()
        self.events = []
        self.mem = {}
        self.dirty = {}          # array base -> number of writes of unknown place
        self.blocks = []
        self.next = {}
        self.end = None
        self.ret = None

    def clone(self):
        p = Path(self.tree, self.P.region, self.header)
        p.P.memo = dict(self.P.memo)
        p.facts, p.events, p.mem, p.dirty = self.facts, list(self.events), dict(self.mem), dict(self.dirty)
        p.blocks = list(self.blocks)
        return p

    def stores(self):
        return [e for e in self.events if isinstance(e, Store)]

    def loops(self):
        return [e for e in self.events if not isinstance(e, Store) and e[0] == "loop"]

    def calls(self, *names):
        return [e for e in self.events if not isinstance(e, Store) and e[0] == "call" and e[1] in names]

    def t(self, v):
        return self.tree.norm(self.P.t(v))

    # ------------------------------------------------------------------
    def enter(self, b, pred):
        if pred is not None:
            vals = []
            for ph in b.phis:
                for v, p in ph.incoming:
                    if p is pred:
                        vals.append((ph, self.t(v)))
                        break
            for ph, x in vals:
                self.P.memo[ph] = x
        self.blocks.append(b)

    def clobber(self, base):
        self.dirty[base] = self.dirty.get(base, 0) + 1
        for a in [a for a in self.mem if el_split(a)[0] == base]:
            del self.mem[a]

    def load(self, i):
        rv = self.tree.u.resolve(i)
        if rv is not i and not (rv.kind == "inst" and rv.op == "load" and rv.block in self.P.region and
                                rv not in self.P.memo):
            return self.t(rv)
        a = self.t(i.ops[0])
        if a in self.mem:
            return self.mem[a]
        base, idx = el_split(a)
        for k in self.mem:
            if el_split(k)[0] == base:
                d, c = to_poly(add(el_split(k)[1], idx, -1))
                if d or c == 0:
                    return ("ldv", a, len(self.events))
        if self.dirty.get(base) or self.dirty.get("*"):
            return ("ldv", a, len(self.events))
        x = self.P.load(i)
        return self.tree.norm(x)

    def step(self, i):
        op = i.op
        if op == "store":
            a = self.t(i.ops[1])
            v = self.t(i.ops[0])
            base, idx = el_split(a)
            for k in list(self.mem):
                if k != a and el_split(k)[0] == base:
                    d, c = to_poly(add(el_split(k)[1], idx, -1))
                    if d:
                        del self.mem[k]
                        self.dirty[base] = self.dirty.get(base, 0) + 1
            self.mem[a] = v
            self.events.append(Store(a, v, i))
        elif op == "load":
            self.P.memo[i] = self.load(i)
        elif op == "call":
            n = i.callee_name() or "?"
            if n.startswith("llvm.dbg") or n.startswith("llvm.lifetime"):
                return
            args = tuple(self.t(o) for o in i.ops)
            if n in ("spasm_ZZp_add", "spasm_ZZp_sub", "spasm_ZZp_mul", "spasm_ZZp_axpy", "spasm_ZZp_init",
                     "spasm_ZZp_inverse"):
                a = list(args[1:])
                if n in SWAP:
                    a.sort(key=sym.key)
                if n == "spasm_ZZp_axpy":
                    a = sorted(a[:2], key=sym.key) + a[2:]
                if n == "spasm_ZZp_add":
                    for x, y in (a, a[::-1]):
                        if x[0] == "zz" and x[1] == "mul":
                            n, a = "spasm_ZZp_axpy", sorted(x[2:], key=sym.key) + [y]
                            break
                self.P.memo[i] = ("zz", n[10:]) + tuple(a)
                return
            if n.startswith("llvm.") and ("max" in n or "min" in n):
                self.P.memo[i] = self.P._t(i)
                return
            self.P.memo[i] = ("call", n, i)
            self.events.append(("call", n, args, i))
            if n.startswith("llvm.mem") or n in ("memcpy", "memset", "memmove"):
                self.clobber(el_split(args[0])[0])
            elif n not in HARMLESS:
                self.clobber("*")
                self.mem.clear()
        elif op == "phi":
            if i not in self.P.memo:
                self.P.memo[i] = ("phi", i)
        elif op in ("atomicrmw", "cmpxchg"):
            self.clobber(el_split(self.t(i.ops[0]))[0])
            self.P.memo[i] = ("inst", i)
        elif i.type != "void" and op not in ("br", "switch", "ret", "unreachable"):
            self.P.memo[i] = self.tree.norm(self.P._t(i))

    def through(self, L):
        """the whole inner loop as one event"""
        init = {ph: self.P.memo.get(ph, ("phi", ph)) for ph in L.header.phis}
        self.events.append(("loop", L, init))
        for ph in L.header.phis:
            self.P.memo[ph] = ("phi", ph)
        for i in (i for b in L.blocks for i in b.insts):
            if i.op == "store":
                self.clobber(el_split(self.tree.norm(self.tree.S.t(i.ops[1])))[0])
            elif i.op == "call":
                n = i.callee_name() or "?"
                if n.startswith("llvm.mem") or n in ("memcpy", "memset", "memmove"):
                    self.clobber(el_split(self.tree.norm(self.tree.S.t(i.ops[0])))[0])
                elif not n.startswith("llvm.") and n not in HARMLESS:
                    self.clobber("*")
                    self.mem.clear()


class TooMany(Exception):
    pass


class Tree:
    def __init__(self, u, fn, S, decide, norm=None, limit=400):
        self.u, self.fn, self.S = u, fn, S
        self._decide = decide
        self._norm = norm
        self.limit = limit
        self.memo = {}
        self.nm = {}
        self.rewrite = None         # optional normal form of branch conditions
        self.stops = False          # top() also gives the paths that end in a call that does not return

    def norm(self, t):
        if self._norm is None:
            return t
        r = self.nm.get(t)
        if r is None:
            r = self.nm[t] = self.simp(t)
        return r

    def simp(self, t):
        def f(x):
            r = self._norm(x)
            if r is not None:
                return r
            if x[0] == "sel":
                d = self.decide(x[1])
                if d is not None:
                    return self.simp(x[2] if d else x[3])
            return None
        for _ in range(8):
            n = subst(t, f)
            if n == t:
                break
            t = n
        return t

    def decide(self, c):
        if c[0] == "c":
            return bool(c[1])
        if c[0] == "not":
            d = self.decide(c[1])
            return None if d is None else not d
        if c[0] in ("and", "or"):
            ds = [self.decide(x) for x in c[1:]]
            bad = c[0] == "or"
            if bad in ds:
                return bad
            return (not bad) if all(d is (not bad) for d in ds) else None
        d = self._decide(c)
        if d is None:
            d2 = self._decide(neg_cond(c))
            d = None if d2 is None else not d2
        return d

    def exits(self, L):
        return [(b, s) for b, s in L.exits() if s.term.op != "unreachable" and not self.dead(s)]

    def dead(self, s):
        if self.stops:
            return False
        seen, st = set(), [s]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.term.op == "ret":
                return False
            st.extend(x.succs)
            if len(seen) > 6:
                return False
        return True

    def inner(self, region, header):
        """loop headers directly inside the region"""
        out = {}
        for L in cfg.loops(self.fn):
            if L.header in region and L.header is not header and L.blocks <= set(region):
                if not any(K is not L and K.header is not header and K.header in region and K.blocks <= set(region)
                           and L.blocks < K.blocks for K in cfg.loops(self.fn)):
                    out[L.header] = L
        return out

    def top(self):
        r = self.memo.get(None)
        if r is None:
            cfg.rpo(self.fn)
            r = self.memo[None] = self.walk(self.fn.entry, set(self.fn.blocks), None)
        return r

    def trips(self, L):
        r = self.memo.get(L)
        if r is None:
            r = self.memo[L] = self.walk(L.header, L.blocks, L)
        return r

    def walk(self, start, region, L):
        inner = self.inner(region, start if L is not None else None)
        out = []
        p = Path(self, region, start)
        for ph in start.phis:
            p.P.memo[ph] = ("phi", ph)
        p.enter(start, None)
        work = [(p, start)]
        n = 0
        while work:
            n += 1
            if n > self.limit:
                raise TooMany(self.fn.name)
            p, b = work.pop()
            if b in inner and b is not start:
                K = inner[b]
                p.through(K)
                es = self.exits(K)
                for (x, s) in es:
                    q = p.clone() if len(es) > 1 else p
                    q.events[-1] = q.events[-1][:3] + ((x, s),)
                    fs = self.known(K, (x, s))
                    if any(contradicts(f, g) for f in fs for g in q.facts):
                        continue
                    q.facts += tuple(f for f in fs if f not in q.facts)
                    if s is start and L is not None:
                        self.finish(q, x, start, L, out)
                    elif s in region:
                        q.enter(s, x)
                        work.append((q, s))
                    else:
                        q.end = s
                        out.append(q)
                continue
            for i in b.insts:
                if i is not b.term:
                    p.step(i)
            t = b.term
            if t.op == "unreachable" and self.stops:
                p.end = b
                out.append(p)
                continue
            if t.op == "ret":
                p.ret = p.t(t.ops[0]) if t.ops else None
                out.append(p)
                continue
            nxt = []
            if t.op == "br" and len(t.targets) == 2 and t.targets[0] is not t.targets[1]:
                c = p.P.cond(p.t(t.ops[0]))
                if self.rewrite is not None:
                    c = self.rewrite(c)
                d = self.decide(c)
                for k in (0, 1):
                    if d is not None and d != (k == 0):
                        continue
                    fs = () if d is not None else tuple(facts(c, k == 0))
                    nxt.append((t.targets[k], fs))
            elif t.op == "switch":
                e = p.t(t.ops[0])
                for k, s in t.cases:
                    nxt.append((s, tuple(facts(sym.eqn(add(e, C(k), -1)), True))))
                nxt.append((t.targets[0], tuple(x for k, s in t.cases
                                                for x in facts(sym.eqn(add(e, C(k), -1)), False))))
            else:
                nxt = [(s, ()) for s in dict.fromkeys(b.succs)]
            nxt = [(s, fs) for s, fs in nxt if not self.dead(s)
                   and not any(contradicts(x, y) for x in fs for y in p.facts)]
            for k, (s, fs) in enumerate(nxt):
                q = p.clone() if k + 1 < len(nxt) else p
                q.facts = q.facts + tuple(x for x in fs if x not in q.facts)
                if L is not None and s is L.header:
                    self.finish(q, b, s, L, out)
                elif s not in region:
                    q.end = s
                    out.append(q)
                else:
                    q.enter(s, b)
                    work.append((q, s))
        return out

    def finish(self, q, last, header, L, out):
        for ph in header.phis:
            for v, p in ph.incoming:
                if p is last:
                    q.next[ph] = q.t(v)
        q.end = header
        out.append(q)

    # ------------------------------------------------------------------
    def bodies(self, L):
        """paths that come back to the header"""
        return [p for p in self.trips(L) if p.end is L.header]

    def left(self, L, edge):
        """paths of the last trip round L when it is left by that edge"""
        return [p for p in self.trips(L) if p.end is edge[1] and p.blocks[-1] is edge[0]]

    def stable(self, t):
        """the value of the term does not depend on when it is read"""
        return False

    def known(self, L, edge):
        """facts that hold whenever the loop is left by that edge"""
        out = None
        for p in self.left(L, edge):
            out = p.facts if out is None else tuple(f for f in out if f in p.facts)
        return tuple(f for f in out or () if all(x[0] not in ("ld", "ldv", "call", "inst") or self.stable(x)
                                                 for x in sym.walk(f)))

    def counter(self, L, init, lo, hi, early=False):
        """term running over lo..hi-1, each value once, in the trips of L; None if there is none.
        early: the loop may stop before the end"""
        lo, hi = self.norm(lo), self.norm(hi)
        live = self.exits(L)
        for r in loop_ranges(self.S, L):
            if not early and any(o in live for o in r.others):
                continue
            start = init.get(r.phi)
            if start is None:
                continue
            rhi, rlo = self.norm(r.hi), self.norm(r.lo)
            if r.step == 1:
                shift = add(lo, start, -1)
                if add(rhi, shift) == hi:
                    return add(r.term, shift)
            if r.step == -1:
                # visits rlo..start
                shift = add(lo, rlo, -1)
                if add(add(start, C(1)), shift) == hi:
                    return add(r.term, shift)
                # the counter is decremented before it is used: start .. values start-1 .. rlo-1
        return None

    def start(self, ph, L):
        for v, p in ph.incoming:
            if p not in L.blocks:
                return v
        return None
