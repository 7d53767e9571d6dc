"""P14: a rank certificate is accepted only if every condition has been checked."""
from common import *
import pts
import cfg
import esp
import sym
import fills
from fills import CTR, bytes_to, before, after, guards_in
from ranges import facts, edge_facts, loop_ranges
from sym import walk, add, neg, C, to_poly, el_split, neg_cond

CERT = "spasm_rank_certificate"
R, PRIME, HASH, I, J, X, Y = range(7)


def ld(a):
    return ("ld", a)


def fld(b, s, k):
    return ("fld", b, s, k)


def el(b, i):
    return sym.el(b, i)


class Kinds:
    """the comparisons verification stands on, as terms"""

    def __init__(self, S, A, H, P):
        self.S = S
        self.A, self.H, self.P = A, H, P
        self.n = ld(fld(A, "spasm_csr", 1))
        self.m = ld(fld(A, "spasm_csr", 2))
        self.r = ld(fld(P, CERT, R))
        self.phash = fld(P, CERT, HASH)
        self.arr = {k: ld(fld(P, CERT, k)) for k in (I, J, X, Y)}
        self.calls = []

    def prime_of_A(self, t):
        return t == ld(fld(self.A, "spasm_csr", 6)) or (
            t[0] == "ld" and any(x == ("fld", self.A, "spasm_csr", 6) for x in walk(t[1])) and t[1][0] == "fld"
            and t[1][3] == 0)

    def of(self, f):
        """fact -> (kind, good?, index term or None, extra) or None"""
        if f[0] == "ult":
            return self.ult(f)
        if f[0] not in ("eq0", "ne0", "lt0"):
            return None
        d, k = to_poly(f[1])
        eq = f[0] == "eq0"
        if f[0] in ("eq0", "ne0"):
            if len(d) == 2 and k == 0 and sorted(d.values()) == [-1, 1]:
                a, b = [m[0] for m in d if len(m) == 1] if all(len(m) == 1 for m in d) else (None, None)
                if a is None:
                    return None
                for x, y in ((a, b), (b, a)):
                    if x[0] == "ld" and y[0] == "ld":
                        bx, ix = el_split(x[1])
                        by, iy = el_split(y[1])
                        if bx == self.phash and by == self.H and ix == iy:
                            return ("hash", eq, ix, None)
                        if x == ld(fld(self.P, CERT, PRIME)) and self.prime_of_A(y):
                            return ("prime", eq, None, None)
                    if x[0] == "call" and x[1] == "spasm_prng_ZZp" and y[0] == "ld":
                        by, iy = el_split(y[1])
                        if iy[0] == "ld":
                            ba, ia = el_split(iy[1])
                            if ba == self.arr[J]:
                                return ("alpha", eq, ia, by)
            if len(d) == 1 and k == 0:
                (mn, c), = d.items()
                if len(mn) == 1 and mn[0][0] == "ld":
                    by, iy = el_split(mn[0][1])
                    if by in self.outputs():
                        return ("zero", eq, iy, by)
                if len(mn) == 1 and mn[0][0] == "call" and mn[0][1] in ("memcmp", "bcmp"):
                    c = mn[0][2]
                    a = {self.S.t(c.ops[0]), self.S.t(c.ops[1])}
                    if a == {self.phash, self.H} and self.S.t(c.ops[2]) == C(32):
                        return ("hash", eq, "all", None)
            return None
        # lt0
        for k_, nm in ((I, "i"), (J, "j")):
            bound = self.n if k_ == I else self.m
            for mn in d:
                if len(mn) == 1 and mn[0][0] == "ld":
                    b, ix = el_split(mn[0][1])
                    if b != self.arr[k_]:
                        continue
                    v = mn[0]
                    t = f[1]
                    if t == v:
                        return (nm + "lo", False, ix, None)               # v < 0
                    if t == add(neg(v), C(-1)):
                        return (nm + "lo", True, ix, None)                # -v-1 < 0
                    if t == add(v, bound, -1):
                        return (nm + "hi", True, ix, None)                # v < bound
                    if t == add(add(bound, v, -1), C(-1)):
                        return (nm + "hi", False, ix, None)               # bound - v - 1 < 0
        return None

    def ult(self, f):
        a, b = f[2], f[3]
        p = f[1]
        if p in ("ugt", "ule"):
            a, b = b, a
        good = p in ("ult", "ugt")
        for k_, nm in ((I, "i"), (J, "j")):
            bound = self.n if k_ == I else self.m
            if a[0] == "ld" and el_split(a[1])[0] == self.arr[k_] and b == bound:
                return (nm + "both", good, el_split(a[1])[1], None)
        return None

    def outputs(self):
        return [self.S.t(c.ops[2]) for c in self.calls]


NEED = {"hash": 32, "prime": None, "ilo": "r", "ihi": "r", "jlo": "r", "jhi": "r", "alpha": "r", "zero": "m"}


class Verify(esp.Client):
    def __init__(self, kinds, fn, S, need):
        self.k, self.fn, self.S, self.need = kinds, fn, S, need
        self.msgs = {}
        self.sites = {}
        self.loops_of = {}         # kind -> {(header): range}
        self.scan()

    def scan(self):
        """comparison sites and the loops covering them"""
        for b in self.fn.blocks:
            for i in b.insts:
                if i.op != "icmp":
                    continue
                for f in facts(self.S.cond(self.S.t(i)), True) | facts(self.S.cond(self.S.t(i)), False):
                    x = self.k.of(f)
                    if x:
                        self.site(x, i)

    def site(self, x, i):
        kind, good, ix, extra = x
        for kd in self.split(kind):
            self.sites.setdefault(kd, []).append((i, ix, extra))
            bound = self.need.get(kd)
            if ix is None or ix == "all" or bound is None:
                continue
            L = cfg.innermost_loop(i.block)
            while L is not None:
                for r in loop_ranges(self.S, L):
                    if ix == r.term and r.lo == C(0) and r.hi == bound:
                        self.loops_of.setdefault(kd, {})[L.header] = r
                L = L.parent

    @staticmethod
    def split(kind):
        return (kind[0] + "lo", kind[0] + "hi") if kind.endswith("both") else (kind,)

    def init(self, e, env):
        return [frozenset()]

    def key(self, q, env):
        out = []
        for v, x in env.v.items():
            if getattr(v, "kind", None) == "inst" and v.op in ("phi", "select") and x and x[0] == "i" \
                    and x[1] is not None and x[1] == x[2] and (v.type in ("i1", "i8") or self.flag(v)):
                out.append((v.id, x[1]))
        return tuple(sorted(out, key=str))

    def flag(self, v):
        c = self.__dict__.setdefault("_flag", {})
        if v not in c:
            seen, st, ok = set(), [v], True
            while st and ok:
                x = st.pop()
                if x in seen or x.kind == "int":
                    continue
                seen.add(x)
                if x.kind == "inst" and x.op == "phi":
                    st.extend(a for a, _ in x.incoming)
                elif x.kind == "inst" and x.op == "select":
                    st.extend(x.ops[1:])
                elif x.kind == "inst" and x.op in ("zext", "icmp", "and", "or") and (
                        x.op == "icmp" or x.ops[0].type == "i1"):
                    pass
                else:
                    ok = False
            c[v] = ok
        return c[v]

    def fact(self, f, s):
        if f[0] == "or":
            alts = []
            for x in f[1:]:
                o = set(s)
                for y in facts(x):
                    self.fact(y, o)
                alts.append(o)
            allk = set.intersection(*alts)
            if all(any(z[0] == "bad" for z in a) for a in alts):
                allk.add(("bad", "any"))
            s.clear()
            s |= allk
            return
        x = self.k.of(f)
        if not x:
            return
        kind, good, ix, extra = x
        for kd in self.split(kind):
            if not good:
                s.add(("bad", kd))
            elif ix is None or ix == "all":
                s.add(("done", kd))
            else:
                s.add(("seen", kd))

    def inst(self, e, q, i, env):
        if i.op == "icmp" and env.v.get(i) not in (esp.iv(0, 0), esp.iv(1, 1)) and any(x.op != "br" for x in i.uses) \
                and any(self.k.of(f) for f in facts(self.S.cond(self.S.t(i)), True)):
            out = []
            for k in (1, 0):
                e1 = env.copy()
                if e.refine(e1, i, bool(k)):
                    s = set(q)
                    for f in facts(self.S.cond(self.S.t(i)), bool(k)):
                        self.fact(f, s)
                    out.append((frozenset(s), e1))
            return out
        return [(q, env)]

    def edge(self, e, q, b, s, env):
        out = set(q)
        t = b.term
        if t.op == "br" and len(t.targets) == 2 and t.targets[0] is not t.targets[1]:
            for f in edge_facts(self.S, b, 0 if t.targets[0] is s else 1):
                self.fact(f, out)
        for kd, hs in self.loops_of.items():
            for h, r in hs.items():
                if s is h:
                    if b in r.loop.blocks:
                        if ("seen", kd) not in out and not any(x[0] == "bad" for x in out):
                            out.add(("skip", kd))
                    out.discard(("seen", kd))
                if b is r.exit_block and s not in r.loop.blocks:
                    if ("skip", kd) not in out and (r.first is not False or ("seen", kd) in out):
                        out.add(("done", kd))
        return frozenset(out)

    def ret(self, e, q, t, env):
        v = e.val(t.ops[0], env)
        if v and v[0] == "i" and v[1] == 0 and v[2] == 0:
            return
        for x in q:
            if x[0] == "bad":
                self.msgs.setdefault(("mismatch-refused", x[1], t.loc),
                                     "acceptance is possible although the %s comparison failed" % x[1])
        if any(x[0] == "bad" for x in q):
            return
        for kd in self.need:
            if ("done", kd) not in q:
                self.msgs.setdefault(("all-compared", kd, t.loc),
                                     "acceptance is possible without the %s comparison over its whole range" % kd)


def draws(S, fn, r, n, terms):
    """[(range bound name, guard kind)] of the draws, in order"""
    out = []
    for c in fn.calls("spasm_prng_ZZp", "spasm_prng_u32"):
        L = cfg.innermost_loop(c.block)
        name, guard = "once", ()
        if L is not None:
            name = "?"
            for rg in loop_ranges(S, L):
                rg.others = [x for x in rg.others if not fills.dead_end(x[1])]
                # early exits of the loop: allowed, they can only shorten a transcript that is refused anyway
                if rg.lo == C(0) and rg.hi in r and rg.step == 1:
                    name = "r"
                elif rg.lo == C(0) and rg.hi in n and rg.step == 1:
                    name = "n"
                else:
                    continue
                gs = set()
                for g in guards_in(S, c.block, L, {rg.exit_block} | {x[0] for x in rg.others}):
                    g = fills.rename(g, rg.term)
                    if any(x[0] == "phi" for x in walk(g) if isinstance(x, tuple) and x):
                        continue
                    gs.add(canon_guard(g))
                guard = tuple(sorted(gs))
            if L.parent is not None:
                name = "nested " + name
        out.append((c, name, guard))
    out.sort(key=lambda x: (x[0].block.rpo, x[0].block.insts.index(x[0])))
    return out


def canon_guard(g):
    """x[i] == BOT for any vector x"""
    if g[0] == "eq0":
        d, k = to_poly(g[1])
        if len(d) == 1:
            (m, c), = d.items()
            if abs(c) == 1 and len(m) == 1 and m[0][0] == "ld" and el_split(m[0][1])[1] == CTR:
                return "unset:%d" % abs(k)
    return "other:" + sym.show(g)


def check(b, rep):
    rep.expl = ("Property simulation of the verifier (each comparison kind identified by the canonical terms of its "
                "operands; mismatch, match and completed-loop states propagated to the verdict), pattern analysis of the "
                "two recomputations, comparison of the challenge transcripts extracted from prover and verifier, and "
                "simulation of the tools from the verdict to the exit status.")
    rep.rule("mismatch-refused", "no path on which a comparison failed returns a non-zero verdict")
    rep.rule("all-compared", "each comparison has been carried out over its whole range on every accepting path")
    rep.rule("recomputation", "both vectors are recomputed from the certificate: cleared, filled, multiplied")
    rep.rule("same-transcript", "prover and verifier seed and draw identically")
    rep.rule("verdict-reported", "the tool prints and returns the verdict of the verifier")
    rep.rule("about-the-input", "the certificate concerns the loaded matrix, with the hash of its own load")
    rep.rule("committed", "the prover commits the rank, hash, prime and the arrays it publishes")
    M = b.lib()
    uv, = pts.units(M, ["spasm_certificate_rank_verify"]) or [None]
    S = sym.Sym(uv, M)
    fn = uv.fn
    A, H, P = ("arg", 0), ("arg", 1), ("arg", 2)
    k = Kinds(S, A, H, P)
    k.calls = list(fn.calls("spasm_xApy"))
    need = {kd: {32: C(32), "r": k.r, "m": k.m, None: None}[v] for kd, v in NEED.items()}
    cl = Verify(k, fn, S, need)
    e = esp.Esp(uv, fn, cl, max_states=800).run()
    if e.overflow:
        raise Broken("state explosion in " + fn.name)
    for (rule, key, loc), m in cl.msgs.items():
        rep.bad(rule, loc, key, m)
    for kd, ss in cl.sites.items():
        for (i, ix, ex) in ss:
            rep.ok("mismatch-refused", i.loc, kd)
            rep.ok("all-compared", i.loc, kd)
    recomputation(rep, S, fn, k)
    transcript(rep, M, S, fn, k)
    uf, = pts.units(M, ["spasm_factorization_verify"]) or [None]
    factorization(rep, uf, M)
    ntool = 0
    for t in b.tool_names():
        MT = b.tool(t)
        for u in pts.units(MT):
            for f in u.fns:
                if any(f.calls("spasm_certificate_rank_verify", "spasm_certificate_rank_create")):
                    ntool += 1
                    tool(rep, u, f, MT, t)
    if not ntool:
        raise Broken("no tool checks a certificate")


def recomputation(rep, S, fn, k):
    calls = sorted(k.calls, key=lambda c: (c.block.rpo, c.block.insts.index(c)))
    fs = fills.all_fills(S, fn)
    if len(calls) < 2:
        rep.bad("recomputation", fn.name, "calls", "the two matrix-vector products are not both computed")
        return
    prev = None
    for num, c in enumerate(calls):
        x, a, y = (S.t(o) for o in c.ops[:3])
        name = ("alpha", "zero")[num] if num < 2 else str(num)
        if a != k.A:
            rep.bad("recomputation", c.loc, name, "the product is not taken with the matrix being certified")
            continue

        def between(f):
            if not before(f, c):
                return False
            return prev is None or after(f, prev)
        fx = [f for f in fs if f.base == x and between(f)]
        fy = [f for f in fs if f.base == y and between(f)]
        problems = []
        # output vector cleared
        if not any(f.val == C(0) and f.lo == C(0) and bytes_to(f.hi, 4) == k.m and f.idx == CTR and f.whole()
                   and not f.guards for f in fy) and not fresh_zero(S, y, prev):
            problems.append("the output vector is not cleared over all columns")
        if any(f.val != C(0) for f in fy):
            problems.append("the output vector receives something else before the product")
        src = k.arr[X] if num == 0 else k.arr[Y]
        scat = [f for f in fx if f.idx == ld(el(k.arr[I], CTR)) and f.val == ld(el(src, CTR)) and f.lo == C(0)
                and f.hi == k.r and f.whole() and not f.guards]
        if not scat:
            problems.append("the pivot rows are not filled from the certificate")
        base = [f for f in fx if f.idx == CTR and f.lo == C(0) and bytes_to(f.hi, 4) == k.n and f.whole()
                and not f.guards and f.val[0] == "c"]
        if num == 0:
            if not any(f.val == C(0) for f in base) and not fresh_zero(S, x, prev):
                problems.append("the other rows are not zero")
        else:
            draw = [f for f in fx if f.idx == CTR and f.val[0] == "call" and f.val[1] == "spasm_prng_ZZp"
                    and f.lo == C(0) and f.hi == k.n and f.whole()]
            if not base or not draw:
                problems.append("the other rows are not drawn at random")
            else:
                bot = base[-1].val[1]
                g = [canon_guard(z) for z in draw[0].guards]
                if g != ["unset:%d" % bot]:
                    problems.append("rows are drawn under another condition than being unset")
                if scat and not before(scat[0], draw[0].site):
                    problems.append("rows are drawn before the certificate's values are set")
        if scat and base and not all(before(f, scat[0].site) for f in base):
            problems.append("the vector is cleared after being filled")
        extra = [f for f in fx if f not in scat and f not in base and not (
            num and f.val[0] == "call" and f.val[1] == "spasm_prng_ZZp")]
        if extra:
            problems.append("an unexpected value is written at %s" % extra[0].site.loc)
        late = [s for s in ("alpha", "zero") if s == name and not any(
            cfg.dominates(c.block, i.block) and (ex == y) for i, ix, ex in k_sites(k, S, fn, s))]
        if late:
            problems.append("its result is not the one compared")
        if problems:
            for p in problems:
                rep.bad("recomputation", c.loc, name + ":" + p.split(" at ")[0].replace(" ", "-")[:40], name + ": " + p)
        else:
            rep.ok("recomputation", c.loc, name)
        prev = c


def k_sites(k, S, fn, kind):
    out = []
    for b in fn.blocks:
        for i in b.insts:
            if i.op == "icmp":
                for f in facts(S.cond(S.t(i)), True) | facts(S.cond(S.t(i)), False):
                    x = k.of(f)
                    if x and x[0] == kind:
                        out.append((i, x[2], x[3]))
    return out


def fresh_zero(S, base, prev):
    return (prev is None or base not in [S.t(o) for o in prev.ops]) and base[0] == "call" and base[1] == "spasm_calloc"


def transcript(rep, M, Sv, fv, k):
    uc, = pts.units(M, ["spasm_certificate_rank_create"]) or [None]
    S = sym.Sym(uc, M)
    fn = uc.fn
    fs = fills.all_fills(S, fn)
    proof = None
    for b_ in fn.blocks:
        if b_.term.op == "ret":
            proof = S.t(b_.term.ops[0])
    fact = ("arg", 2)
    U = ld(fld(fact, "spasm_lu", 3))
    Lm = ld(fld(fact, "spasm_lu", 2))
    rk = {ld(fld(U, "spasm_csr", 1)), ld(fld(fact, "spasm_lu", 0)), ld(fld(proof, CERT, R))}
    rows = {ld(fld(Lm, "spasm_csr", 1)), ld(fld(("arg", 0), "spasm_csr", 1))}
    # what is committed
    st = {}
    for f in fs:
        if f.base[0] == "fld" and f.base[1] == proof and f.base[2] == CERT:
            st.setdefault(f.base[3], []).append(f)
    want = {R: lambda f: f.val in rk, PRIME: lambda f: k.prime_of_A(f.val),
            HASH: lambda f: f.idx == CTR and f.val in (ld(el(("arg", 1), CTR)),) and f.lo == C(0)
            and bytes_to(f.hi, 1) == C(32) and f.whole()}
    for kk, nm in ((R, "r"), (PRIME, "prime"), (HASH, "hash")):
        l = st.get(kk, [])
        if l and all(want[kk](f) for f in l):
            rep.ok("committed", l[0].site.loc, nm)
        else:
            rep.bad("committed", fn.name, nm, "the %s of the certificate is not the actual one" % nm)
    arrs = {}
    for kk in (I, J, X, Y):
        l = st.get(kk, [])
        if len(l) != 1:
            rep.bad("committed", fn.name, "arr%d" % kk, "array %d of the certificate is set %d times" % (kk, len(l)))
            return
        arrs[kk] = l[0].val
    if len(set(arrs.values())) != 4:
        rep.bad("committed", fn.name, "arrays", "two arrays of the certificate share their storage")
    alias = {arrs[kk]: kk for kk in arrs}
    alias.update({ld(fld(proof, CERT, kk)): kk for kk in arrs})
    fact_p = ld(fld(fact, "spasm_lu", 5))
    solves = list(fn.calls("spasm_solve"))
    for kk, nm in ((I, "i"), (J, "j"), (X, "x"), (Y, "y")):
        l = [f for f in fs if alias.get(f.base) == kk]
        ok = bool(l)
        for f in l:
            if kk == I:
                ok = ok and ((f.idx == CTR and f.val == ld(el(fact_p, CTR)) and f.hi in rk) or (
                    f.kind == "mem" and bytes_to(f.hi, 4) in rk and el_split(f.val[1])[0] == fact_p)) and f.lo == C(0) \
                    and f.whole()
            elif kk == J:
                ok = ok and f.val == CTR and f.whole() and f.lo == C(0) and f.hi == ld(fld(U, "spasm_csr", 2))
            else:
                # x[i[k]] of the vector returned by a solve
                good = False
                if f.val[0] == "ld" and f.idx == CTR and f.hi in rk and f.lo == C(0) and f.whole():
                    v, ix = el_split(f.val[1])
                    row = ix[0] == "ld" and (alias.get(el_split(ix[1])[0]) == I or el_split(ix[1])[0] == fact_p) and \
                        el_split(ix[1])[1] == CTR
                    prod = [s for s in solves if S.t(s.ops[2]) == v and cfg.dominates(s.block, f.site.block)]
                    good = bool(row and prod and len(prod) == (1 if kk == X else 2) or (row and len(solves) != 2 and prod))
                ok = ok and good
        if ok:
            rep.ok("committed", l[0].site.loc, nm)
        else:
            rep.bad("committed", fn.name, nm, "array %s of the certificate is not filled with what it stands for" % nm)

    def seedsig(S_, c, side):
        h, p, ctr = (S_.t(o) for o in c.ops[:3])
        if side == "create":
            hk = h in (("arg", 1), fld(proof, CERT, HASH))
            pk = p == ld(fld(proof, CERT, PRIME)) or k.prime_of_A(p)
        else:
            hk = h in (k.H, k.phash)
            pk = p == ld(fld(k.P, CERT, PRIME)) or k.prime_of_A(p)
        return ("hash" if hk else sym.show(h), "prime" if pk else sym.show(p), sym.show(ctr))
    sc = [seedsig(S, c, "create") for c in fn.calls("spasm_prng_seed", "spasm_prng_seed_simple")]
    sv = [seedsig(Sv, c, "verify") for c in fv.calls("spasm_prng_seed", "spasm_prng_seed_simple")]
    want = [("hash", "prime")]
    if sc != sv or [s[:2] for s in sc] != want:
        rep.bad("same-transcript", fv.name, "seed", "prover seeds with %s, verifier with %s" % (sc, sv))
    else:
        rep.ok("same-transcript", fv.name, "seed %s" % sc)
    dc = [(n, g) for c, n, g in draws(S, fn, rk, rows, None)]
    dv = [(n, g) for c, n, g in draws(Sv, fv, {k.r}, {k.n}, None)]
    if dc != dv:
        rep.bad("same-transcript", fv.name, "draws", "prover draws %s, verifier %s" % (dc, dv))
    else:
        rep.ok("same-transcript", fv.name, "draws %s" % dc)
    if not any(n == "r" for n, g in dv) or not any(n == "n" for n, g in dv):
        rep.bad("same-transcript", fv.name, "lengths", "the challenges do not cover the r pivots and the other rows")
    # the verifier draws the alpha challenge inside its own comparison; the prover stores it at column j[k]
    put = [f for f in fs if f.val[0] == "call" and f.val[1] == "spasm_prng_ZZp"]
    okp = any(f.idx[0] == "ld" and alias.get(el_split(f.idx[1])[0]) == J and el_split(f.idx[1])[1] == CTR for f in put)
    if okp:
        rep.ok("same-transcript", fn.name, "challenge k is bound to column j[k]")
    else:
        rep.bad("same-transcript", fn.name, "binding", "the k-th challenge is not bound to the k-th pivot column")
    neg_ok = [f for f in fs if f.idx == CTR and f.val[0] == "poly" and any(
        a[0] == "call" and a[1] == "spasm_prng_ZZp" for a in sym.atoms(f.val))]
    if len(neg_ok) == 1 and neg_ok[0].val == neg(next(iter(sym.atoms(neg_ok[0].val)))):
        rep.ok("same-transcript", neg_ok[0].site.loc, "the prover moves the random rows to the right-hand side")
    else:
        rep.bad("same-transcript", fn.name, "sign", "the random rows do not enter the right-hand side with a minus sign")


class Vector(esp.Client):
    pass


def factorization(rep, u, M):
    """both images of the random vector are compared over all columns"""
    S = sym.Sym(u, M)
    fn = u.fn
    m = ld(fld(("arg", 0), "spasm_csr", 2))
    outs = [S.t(c.ops[2]) for c in fn.calls("spasm_xApy")]

    class K:
        def of(self, f):
            if f[0] not in ("eq0", "ne0"):
                return None
            d, k = to_poly(f[1])
            if len(d) == 2 and k == 0 and sorted(d.values()) == [-1, 1] and all(len(x) == 1 for x in d):
                a, b = [x[0] for x in d]
                if a[0] == "ld" and b[0] == "ld":
                    ba, ia = el_split(a[1])
                    bb, ib = el_split(b[1])
                    if ia == ib and ba != bb and ba in outs and bb in outs:
                        return ("lu", f[0] == "eq0", ia, (ba, bb))
            return None
    cl = Verify(K(), fn, S, {"lu": m})
    e = esp.Esp(u, fn, cl, max_states=400).run()
    for (rule, key, loc), msg in cl.msgs.items():
        rep.bad(rule, loc, "factorization:" + key, msg)
    for (i, ix, ex) in cl.sites.get("lu", []):
        rep.ok("all-compared", i.loc, "factorization")


class Tool(esp.Client):
    def __init__(self, u, fn, S):
        self.u, self.fn, self.S = u, fn, S
        self.msgs = {}
        self.vs = set()
        self.nverify = len(list(fn.calls("spasm_certificate_rank_verify")))
        self.standalone = not any(fn.calls("spasm_certificate_rank_create"))

    def init(self, e, env):
        return [frozenset()]

    def key(self, q, env):
        out = []
        for v, x in env.v.items():
            if getattr(v, "kind", None) == "inst" and v.op in ("phi", "select") and x and x[0] == "i" \
                    and x[1] is not None and x[1] == x[2]:
                out.append((v.id, x[1]))
        return tuple(sorted(out, key=str))

    def inst(self, e, q, i, env):
        if i.op != "call":
            return [(q, env)]
        n = i.callee_name()
        if n == "spasm_certificate_rank_verify":
            self.vs.add(i)
            out = []
            for k, it in ((1, "accepted"), (0, "refused")):
                e1 = env.copy()
                e.setv(e1, i, esp.iv(k, k))
                out.append((frozenset(x for x in q if x not in ("accepted", "refused")) | {it}, e1))
            return out
        if n == "spasm_triplet_transpose":
            return [(q | {("transposed", S_key(self.S.t(i.ops[0])))}, env)]
        if n in ("spasm_certificate_rank_create", "spasm_certificate_rank_verify"):
            pass
        if n in ("fprintf", "printf", "puts", "fputs", "fwrite"):
            txt = ""
            for o in i.ops:
                vals = [o]
                if o.kind == "inst" and o.op == "select":
                    c = e.val(o.ops[0], env)
                    vals = [o.ops[1]] if c == esp.iv(1, 1) else ([o.ops[2]] if c == esp.iv(0, 0) else o.ops[1:])
                elif o.kind == "inst" and o.op == "phi":
                    vals = []
                    x = e.val(o, env)
                    if x and x[0] == "p":
                        for tk in x[1]:
                            if isinstance(tk, tuple) and tk[0] == "glob":
                                vals += [a for a, _ in o.incoming if a.kind == "global" and a.name == tk[1]]
                for v in vals:
                    if v.kind == "global" and v.init is not None and v.init.kind == "str":
                        s = v.init.val
                        txt += (s.decode("latin1") if isinstance(s, bytes) else s) + "\0"
            wrong = re.search(r"\b(INCORRECT|INVALID|WRONG|FAILED)\b", txt)
            right = re.search(r"\b(CORRECT|VALID)\b", txt)
            if wrong and "accepted" in q and "refused" not in q:
                self.msgs.setdefault(("print-refused", i.loc), "an accepted certificate is reported as refused")
            if right and "refused" in q:
                self.msgs.setdefault(("print-accepted", i.loc), "a refused certificate is reported as accepted")
            if right and not q & {"refused", "accepted"}:
                self.msgs.setdefault(("print-unchecked", i.loc), "a certificate is reported as accepted without a verdict")
        if n == "exit" and i.ops:
            self.status(e, q, i, e.val(i.ops[0], env))
        return [(q, env)]

    def status(self, e, q, i, v):
        if not self.standalone:
            return
        zero = v is None or v[0] != "i" or ((v[1] is None or v[1] <= 0) and (v[2] is None or v[2] >= 0))
        nonz = v is None or v[0] != "i" or v[1] != 0 or v[2] != 0
        if "refused" in q and zero:
            self.msgs.setdefault(("exit-refused", i.loc), "the tool may exit with status 0 although the certificate "
                                 "is refused")
        if "accepted" in q and nonz:
            self.msgs.setdefault(("exit-accepted", i.loc), "the tool may exit with a failure status although the "
                                 "certificate is accepted")
        if not q & {"accepted", "refused"} and zero and i.op == "ret":
            self.msgs.setdefault(("exit-unchecked", i.loc), "the tool may exit with status 0 without a verdict")

    def ret(self, e, q, t, env):
        if t.ops:
            self.status(e, q, t, e.val(t.ops[0], env))


def S_key(t):
    return sym.show(t)


class Flow(Tool):
    """no transposition of the loaded triplet list may reach a certificate operation"""

    def inst(self, e, q, i, env):
        if i.op == "call":
            n = i.callee_name()
            if n == "spasm_triplet_transpose":
                return [(q | {"transposed"}, env)]
            if n in ("spasm_certificate_rank_create", "spasm_certificate_rank_verify", "spasm_factorization_verify") \
                    and n != "spasm_factorization_verify" and "transposed" in q:
                self.msgs.setdefault(("transposed", i.loc), "%s is given the transpose of the loaded matrix" % n)
        return [(q, env)]

    def status(self, e, q, i, v):
        pass

    def key(self, q, env):
        return ()


def tool(rep, u, fn, M, name):
    S = sym.Sym(u, M)
    cl = Tool(u, fn, S)
    e = esp.Esp(u, fn, cl, max_states=400).run()
    for (key, loc), m in cl.msgs.items():
        rep.bad("verdict-reported", loc, "%s:%s" % (name, key), m)
    rep.ok("verdict-reported", name, "%d verdicts" % len(cl.vs))
    fl = FlowMem(u, fn, S)
    e = esp.Esp(u, fn, fl, max_states=400).run()
    for (key, loc), m in fl.msgs.items():
        rep.bad("about-the-input", loc, "%s:%s" % (name, key), m)
    for c in fn.calls("spasm_certificate_rank_create", "spasm_certificate_rank_verify"):
        A, H = S.t(c.ops[0]), S.t(c.ops[1])
        ok = A[0] == "call" and A[1] == "spasm_compress"
        T = S.t(A[2].ops[0]) if ok else None
        loads = list(fn.calls("spasm_triplet_load"))
        ok = ok and loads and all(S.t(l.ops[2]) == H for l in loads)
        if ok and T[0] == "call":
            ok = T[1] == "spasm_triplet_load"
        elif ok and T[0] == "phi":
            ok = all(S.t(v)[0] == "call" and S.t(v)[1] == "spasm_triplet_load" for v, _ in T[1].incoming)
        elif ok and T[0] == "sel":
            ok = all(x[0] == "call" and x[1] == "spasm_triplet_load" for x in T[2:])
        if ok:
            rep.ok("about-the-input", c.loc, c.callee_name())
        else:
            rep.bad("about-the-input", c.loc, "%s:%s" % (name, c.callee_name()),
                    "the matrix or the hash given to %s is not that of the loaded input" % c.callee_name())


class FlowMem(Flow):
    """remembers whether a flag (a field of the parsed options) was tested, so that repeated tests agree"""

    def key(self, q, env):
        out = []
        for k, (x, links) in env.m.items():
            if x and x[0] == "i" and x[1] is not None and x[1] == x[2]:
                out.append((str(k[1:]), x[1]))
            elif x and x[0] == "i" and x[1] == 1:
                out.append((str(k[1:]), "set"))
        return tuple(sorted(out, key=str))


if __name__ == "__main__":
    sys.exit(run("P14", check))
