"""P17: asking for L excludes every strategy that does not record it."""
from common import *
import pts
import cfg
import esp
from sym import Sym, show, walk, C, add, to_poly
from seqs import Walker
from ranges import loop_ranges

OPTS = "struct.echelonize_opts"
LU = "struct.spasm_lu"
CSR = "struct.spasm_csr"
TRI = "struct.spasm_triplet"
F_L, F_COMPLETE = 4, 5
ALLOC = {"spasm_csr_alloc", "spasm_triplet_alloc", "spasm_malloc", "spasm_calloc", "spasm_realloc", "spasm_compress",
         "spasm_schur"}
RECORD = {"spasm_schur": 5}


def fields(u, p):
    """(struct, field) of what pointer p designates: ('in', s, k) inside the array held by the field, ('at', s, k)"""
    out = set()
    for l in u.of(p):
        path = l[1]
        if not path:
            continue
        if path[-1] == "*":
            if len(path) > 1:
                f = path[-2]
                out.add(("in", f[1], f[2]))
        elif path[-1][0] == "f":
            out.add(("at", path[-1][1], path[-1][2]))
    return out


def is_append(S, u, i):
    """U->n advances"""
    return i.op == "store" and ("at", CSR, 1) in fields(u, i.ops[1]) and S.t(i.ops[0])[0] != "c"


def records_coef(u, i):
    if i.op == "store":
        return ("in", TRI, 6) in fields(u, i.ops[1])
    return i.op == "call" and i.callee_name() == "spasm_add_entry"


def records_row(u, i):
    return i.op == "store" and ("in", LU, 5) in fields(u, i.ops[1])


class Sim(esp.Client):
    """spasm_echelonize with the options L / complete given"""

    def __init__(self, S, u, fn, L, complete):
        self.S, self.u, self.fn = S, u, fn
        self.opt = {F_L: L, F_COMPLETE: complete}
        self.want = bool(L or complete)
        self.msgs = {}
        self.edges = set()
        self.seen = {"append": 0, "strategy": 0, "ret": 0}
        self.mark = {}
        for lp in cfg.loops(fn):
            c = r = False
            for b in lp.blocks:
                for i in b.insts:
                    c = c or records_coef(u, i)
                    r = r or records_row(u, i)
            self.mark[lp.header] = (lp, c, r)

    def init(self, e, env):
        return [("none", 0, 0, 0, None, None, None, 0)]

    def key(self, q, env):
        return ()

    def arg(self, v):
        if v.type == "ptr":
            return ("p", frozenset([("arg", v.idx)]))
        return None

    def field(self, p):
        p = self.u.resolve(p)
        if p.op != "gep" if p.kind == "inst" else True:
            return None
        if p.srctype != "%" + OPTS and p.srctype != OPTS:
            return None
        if len(p.ops) == 3 and p.ops[2].is_int():
            return p.ops[2].val
        return None

    def load(self, e, i, env):
        f = self.field(i.ops[0])
        if f in self.opt:
            v = self.opt[f]
            return esp.iv(v, v)
        if i.type == "ptr":
            fl = fields(self.u, i.ops[0])
            if fl and fl <= {("at", LU, 3), ("at", LU, 4), ("at", CSR, 3), ("at", CSR, 4), ("at", CSR, 5),
                             ("at", TRI, 4), ("at", TRI, 5), ("at", TRI, 6)}:
                return ("p", frozenset([("ld", i.id)]))
        return None

    def call(self, e, i, env):
        if i.type == "ptr" and (i.callee_name() in ALLOC):
            return ("p", frozenset([("call", i.id)]))
        return None

    def bad(self, i, key, msg):
        self.msgs.setdefault((key, i.loc), msg)

    def settle(self, q, i):
        src, app, coef, row = q[:4]
        if app and not (coef and row):
            self.bad(i, "unrecorded", "a row is appended to U without %s being recorded in L (option L set)" % (
                "its coefficients" if not coef else "its originating row"))

    def inst(self, e, q, i, env):
        n = i.callee_name() if i.op == "call" else None
        fl, q = q[4:], q[:4]
        if i.op == "store":
            f = [x[2] for x in fields(self.u, i.ops[1]) if x[:2] == ("at", LU)]
            if len(f) == 1 and f[0] in (6, 2, 1):
                x = e.val(i.ops[0], env)
                if f[0] != 1:
                    x = "set" if self.nonnull(e, x) else "null"
                fl = tuple(x if k == (6, 2, 1).index(f[0]) else fl[k] for k in range(3)) + fl[3:]
            if ("at", TRI, 1) in fields(self.u, i.ops[1]):
                fl = fl[:3] + (0,)
            elif records_coef(self.u, i):
                fl = fl[:3] + (1,)
        if n == "spasm_compress" and fl[3]:
            self.bad(i, "count", "entries were written into L but L->nz was not updated: they are lost")
        if i.op == "load" and i.type == "ptr" and fields(self.u, i.ops[0]) == {("at", LU, 6)}:
            if fl[0] == "set":
                e.setv(env, i, ("p", frozenset([("ld", i.id)])))
        if n in ("spasm_sparse_triangular_solve", "spasm_ffpack_rref", "spasm_ffpack_LU", "spasm_schur_dense",
                 "spasm_schur_dense_randomized"):
            self.seen["strategy"] += 1
            self.settle(q, i)
            q = ({"spasm_sparse_triangular_solve": "solve", "spasm_ffpack_rref": "rref",
                  "spasm_schur_dense_randomized": "rref", "spasm_ffpack_LU": "lu"}.get(n, "none"), 0, 0, 0)
        if n in ("spasm_pivots_extract_structural", "spasm_schur_dense", "spasm_schur"):
            self.need_L(e, fl, i, env, n)
        if is_append(self.S, self.u, i):
            self.seen["append"] += 1
            src, app, coef, row = q
            if src == "rref":
                self.bad(i, "rref", "a row computed without recording L is appended to U although L is wanted")
            elif src == "none":
                self.bad(i, "source", "a row of unknown origin is appended to U although L is wanted")
            if app and src == "solve":
                self.settle(q, i)
                coef = row = 0
            q = (src, 1, coef, row)
        elif records_coef(self.u, i) and q[0] == "solve":
            q = (q[0], q[1], 1 if not self.element(i) else q[2], q[3])
        elif records_row(self.u, i) and q[0] == "solve":
            q = (q[0], q[1], q[2], 1)
        return [(q + fl, env)]

    def element(self, i):
        """a store recording an eliminated coefficient (in an element loop), not the pivot"""
        L = cfg.innermost_loop(i.block)
        while L is not None:
            if any(k.op == "call" and k.callee_name() == "spasm_sparse_triangular_solve"
                   for b in L.blocks for k in b.insts):
                return False
            if i.block in L.blocks:
                return True
            L = L.parent
        return False

    def nonnull(self, e, x):
        return x is not None and x[0] == "p" and "null" not in x[1]

    def need_L(self, e, fl, i, env, n):
        k = RECORD.get(n)
        if k is not None:
            x = e.val(i.ops[k], env)
            if not self.nonnull(e, x):
                self.bad(i, "no-L", "%s is called without the L to record into, although L is wanted" % n)
        elif fl[0] != "set":
            self.bad(i, "no-L", "%s may run while fact->Ltmp is NULL, although L is wanted" % n)

    def edge(self, e, q, b, s, env):
        self.edges.add((b, s))
        m = self.mark.get(s)
        if m and q[0] == "lu" and b not in m[0].blocks:
            q = (q[0], q[1], q[2] or int(m[1]), q[3] or int(m[2])) + q[4:]
        return q

    def ret(self, e, q, t, env):
        self.seen["ret"] += 1
        self.settle(q, t)
        cv = q[6]
        if q[5] != "set":
            self.bad(t, "null-L", "the factorization is returned without L, although L is wanted")
        c = self.opt[F_COMPLETE]
        if cv != esp.iv(c, c):
            self.bad(t, "complete", "the returned factorization does not say whether it is complete as requested")


def strategy_loops(fn):
    """loops in which rows are eliminated (innermost round the solver / FFPACK calls)"""
    out = []
    for i in fn.calls("spasm_sparse_triangular_solve", "spasm_ffpack_LU"):
        L = cfg.innermost_loop(i.block)
        if L is not None and L not in out:
            out.append(L)
    return out


def rank_like(S, u, t):
    """does the term depend on how many pivots were found?"""
    for x in walk(t):
        if x[0] == "call" and x[1] in ("spasm_ffpack_LU", "spasm_ffpack_rref", "spasm_echelonize_test_completion"):
            return x[1]
        if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == "spasm_csr" and x[1][3] == 1:
            base = x[1][1]
            if any(y[0] == "fld" and y[2] == "spasm_lu" for y in walk(base)) or \
                    any(y[0] == "call" and y[1] in ("spasm_csr_alloc", "spasm_malloc") for y in walk(base)):
                return "the number of pivots"
    return None


def whole(R, rep, M):
    u = pts.units(M, ["spasm_echelonize"])[0]
    S = Sym(u, M)
    fn = u.fn
    rep.rule("excluded", "with L (or complete) set, no path of spasm_echelonize appends a row to U that comes from a "
             "strategy without L; every appended row is recorded in L; every sub-procedure is given the L to record in; "
             "the result carries L and says whether it is complete")
    for (L, c) in ((1, 0), (0, 1), (1, 1)):
        sim = Sim(S, u, fn, L, c)
        e = esp.Esp(u, fn, sim, max_states=80).run()
        where = "spasm_echelonize[L=%d,complete=%d]" % (L, c)
        if e.overflow:
            raise Broken("too many states in " + where)
        for (k, loc), m in sorted(sim.msgs.items()):
            rep.bad("excluded", "%s %s" % (where, loc), k, m)
        if not sim.msgs:
            rep.ok("excluded", where, "%d appends, %d strategy calls, %d returns reached" % (
                sim.seen["append"], sim.seen["strategy"], sim.seen["ret"]))
        if not sim.seen["append"] or not sim.seen["ret"]:
            rep.bad("excluded", where, "nothing", "no elimination strategy is left when L is wanted")
        rep.rule("all-rows", "with L set, the elimination loops are not left because of the number of pivots "
                 "found so far: rows that yield no pivot still have their part of L recorded")
        if c:
            for lp in strategy_loops(fn):
                for (b, s) in lp.exits():
                    if (b, s) not in sim.edges or b.term.op != "br" or len(b.term.targets) != 2:
                        continue
                    why = rank_like(S, u, S.t(b.term.ops[0]))
                    if why:
                        rep.bad("all-rows", "%s %s" % (where, b.term.loc), "early",
                                "the elimination loop can be left early (depends on %s) although a complete "
                                "factorization is wanted" % why)
                    else:
                        rep.ok("all-rows", "%s exit at %s" % (where, b.term.loc))


def zero_test(t):
    """is t the value of a coefficient (scratch vector entry or FFPACK entry)?"""
    return (t[0] == "ld" and t[1][0] == "el") or (t[0] == "call" and t[1] == "spasm_datatype_read")


def spread(t):
    """min(a, b) + c  ->  min(a + c, b + c)"""
    d, k = to_poly(t)
    mins = [m for m in d if len(m) == 1 and m[0][0] == "min" and d[m] == 1]
    if len(mins) == 1:
        rest = add(t, mins[0][0], -1)
        return ("min",) + tuple(add(x, rest) for x in mins[0][0][1:])
    return t


def shifts(S, lp, term):
    """constants c such that the loop reads arrays at index  counter + c"""
    out = set()
    for b in lp.blocks:
        for i in b.insts:
            if i.op == "load":
                a = S.t(i.ops[0])
                if a[0] == "el":
                    d = add(a[2], term, -1)
                    if d[0] == "c":
                        out.add(d)
    return out


def decide_elem(S):
    """conditions met by an eliminated coefficient that must be recorded: nonzero, on a pivotal column, L present"""
    def dec(c):
        k = c[0]
        if k in ("eq0", "ne0"):
            t = c[1]
            if t[0] == "pdiff":
                return k == "ne0"
            if zero_test(t):
                return k == "ne0"
            if t[0] == "poly" and len([x for x in walk(t) if x[0] == "ld"]) and add(t, C(-1))[0] == "ld":
                return k == "ne0"        # qinv[j] == -1
        if k == "lt0" and c[1][0] == "ld":
            return False
        if k == "lt0" and add(neg1(c[1]), C(-1))[0] == "ld":
            return True                  # -1 - qinv[j] < 0
        if k in ("and", "or"):
            v = [dec(x) for x in c[1:]]
            if k == "and":
                return False if False in v else (True if all(v) else None)
            return True if True in v else (False if all(x is False for x in v) else None)
        if k == "not":
            v = dec(c[1])
            return None if v is None else not v
        return None
    return dec


def neg1(t):
    from sym import neg
    return neg(t)


def flat(body):
    """all token sequences without loops: list of lists, loops flattened to nothing"""
    seqs = [[]]
    for x in body:
        if x[0] == "loop":
            continue
        if x[0] == "alt":
            alts = []
            for a in x[2]:
                alts += flat(a)
            seqs = [s + a for s in seqs for a in alts]
            seqs = seqs[:256]
        else:
            seqs = [s + [x[0]] for s in seqs]
    return seqs


def counted(rep, M):
    rep.rule("counted", "entries recorded in L are counted: the entry count of L is updated before the procedure that "
             "recorded them returns, and no sub-procedure replaces the L of the factorization")
    for u in pts.units(M, ["spasm_schur", "spasm_schur_dense", "spasm_pivots_extract_structural"]):
        S = Sym(u, M)
        for i in u.insts():
            if i.op == "store" and any(x[:2] == ("at", LU) for x in fields(u, i.ops[1])):
                rep.bad("counted", "%s %s" % (u.fn.name, i.loc), "replaced", "a component of the factorization is "
                        "replaced during the elimination")
            if i.op in ("phi", "select") and i.type == "ptr":
                vs = [v for v, _ in i.incoming] if i.op == "phi" else i.ops[1:]
                if any(v.kind == "null" for v in vs):
                    for v in vs:
                        x = S.t(v) if v.kind != "null" else C(0)
                        if (x[0] == "ld" and x[1][0] == "fld" and x[1][2:] == ("spasm_lu", 6)) or \
                                (u.fn.name == "spasm_schur" and x == ("arg", 5)):
                            rep.bad("counted", "%s %s" % (u.fn.name, i.loc), "given-up", "the L of the factorization is "
                                    "ignored under some condition")
        if u.fn.name == "spasm_pivots_extract_structural":
            rep.ok("counted", u.fn.name)
            continue

        def tok(i):
            if i.op == "store" and ("at", TRI, 1) in fields(u, i.ops[1]):
                return [("nz", i.loc)]
            if i.op == "atomicrmw" and ("at", TRI, 1) in fields(u, i.ops[0]):
                return [("nz", i.loc)]
        seqs = flat(Walker(S, u.fn, tok, decide_elem(S)).all())
        inside = any(tok(i) for f in u.fns if f is not u.fn for i in f.insts())
        if all(s for s in seqs) or inside:
            rep.ok("counted", u.fn.name)
        else:
            rep.bad("counted", u.fn.name, "count", "entries written into L may not be counted in L->nz: they are lost")


def elements(rep, M):
    rep.rule("elements", "every nonzero coefficient met on a pivotal column during the elimination of a row is recorded "
             "in L: the loop runs over the whole eliminated row and no further condition guards the recording")
    names = ["spasm_echelonize", "spasm_schur", "spasm_schur_dense"]
    for u in pts.units(M, names):
        S = Sym(u, M)
        found = 0
        for f in u.fns:
            for lp in cfg.loops(f):
                st = [i for b in lp.blocks for i in b.insts if i.op == "store" and records_coef(u, i)
                      and cfg.innermost_loop(b) is lp]
                if not st:
                    continue
                v = S.t(st[0].ops[0])
                if any(x[0] == "fld" and x[2] == "spasm_triplet" for x in walk(v)):
                    continue                       # moves entries of L around
                if any(i.op == "call" and i.callee_name() == "spasm_sparse_triangular_solve"
                       for b in lp.blocks for i in b.insts):
                    continue                       # the row loop
                found += 1

                def tok(i):
                    return [("L", i.loc)] if i.op == "store" and records_coef(u, i) else None
                node, _ = Walker(S, f, tok, decide_elem(S)).loop(lp, 0)
                where = "%s %s" % (f.name.split(".")[0], st[0].loc)
                seqs = flat(node[2])
                if not all(len(s) == 1 for s in seqs):
                    rep.bad("elements", where, "guard", "the recording of an eliminated coefficient in L depends on a "
                            "further condition or is repeated")
                    continue
                r = [x for x in loop_ranges(S, lp) if not x.others]
                if not r:
                    rep.bad("elements", where, "range", "the loop that records eliminated coefficients in L can be left "
                            "before the end of the row")
                    continue
                rep.ok("elements", where, "%s .. %s" % (show(r[0].lo), show(r[0].hi)))
                solve = any(x[0] == "call" and x[1] == "spasm_datatype_read" for x in walk(v))
                if not solve:
                    good = []
                    for x in r:
                        for c in shifts(S, lp, x.term):
                            lo, hi = add(x.lo, c), add(x.hi, c)
                            if lo[0] == "call" and lo[1] == "spasm_sparse_triangular_solve" and hi[0] == "ld" \
                                    and hi[1][0] == "fld" and hi[1][2:] == ("spasm_csr", 2):
                                good.append(x)
                    if not good:
                        rep.bad("elements", where, "range", "the loop that records eliminated coefficients in L does not "
                                "run over the whole row (%s .. %s)" % (show(r[0].lo), show(r[0].hi)))
        if not found:
            rep.bad("elements", u.fn.name, "none", "%s records nothing in L" % u.fn.name)


def rows(rep, M):
    rep.rule("rows", "wherever pivotal rows are copied into U, every path through the loop body also records the pivot "
             "coefficient and the originating row in L when there is one")
    u = pts.units(M, ["spasm_pivots_extract_structural"])[0]
    S = Sym(u, M)
    n = 0
    for f in u.fns:
        for lp in cfg.loops(f):
            ap = [i for b in lp.blocks for i in b.insts if is_append(S, u, i) and cfg.innermost_loop(b) is lp]
            if not ap:
                continue
            n += 1

            def tok(i):
                if is_append(S, u, i):
                    return [("app", i.loc)]
                if records_coef(u, i):
                    return [("L", i.loc)]
                if records_row(u, i):
                    return [("Lp", i.loc)]

            def dec(c):
                if c[0] in ("eq0", "ne0") and c[1][0] == "pdiff":
                    if any(x[0] == "fld" and x[2] == "spasm_lu" for x in walk(c[1])):
                        return c[0] == "ne0"
                return None
            node, _ = Walker(S, f, tok, dec).loop(lp, 0)
            where = "%s %s" % (f.name, ap[0].loc)
            for s in flat(node[2]):
                if s.count("app") and (s.count("L") < s.count("app") or s.count("Lp") < s.count("app")):
                    rep.bad("rows", where, "unrecorded", "a pivotal row is appended to U without being recorded in L")
                    break
            else:
                rep.ok("rows", where)
    if not n:
        rep.bad("rows", u.fn.name, "none", "no pivotal row is appended to U")


def lu(rep, M):
    """the LU update records all rows (complete) or all pivotal rows"""
    rep.rule("lu-rows", "the dense LU update records every row of the block in L when a complete factorization is wanted, "
             "and every pivotal row otherwise, up to the diagonal")
    u = pts.units(M, ["spasm_echelonize"])[0]
    S = Sym(u, M)
    f = u.fn
    for lp in cfg.loops(f):
        st = [i for b in lp.blocks for i in b.insts if i.op == "store" and records_coef(u, i)
              and cfg.innermost_loop(b) is lp
              and any(x[0] == "call" and x[1] == "spasm_datatype_read" for x in walk(S.t(i.ops[0])))]
        if not st or lp.parent is None:
            continue
        where = "spasm_echelonize %s" % st[0].loc
        outer = [x for x in loop_ranges(S, lp.parent)]
        inner = [x for x in loop_ranges(S, lp)]
        rank = ("call", "spasm_ffpack_LU")

        def is_rank(t):
            return t[0] == "call" and t[1] == "spasm_ffpack_LU"
        ok = False
        for o in outer:
            if o.lo != C(0):
                continue
            h = o.hi
            if h[0] == "sel" and is_rank(h[3]) and not is_rank(h[2]) and h[1][0] == "ne0":
                ok = opt_field(h[1]) == F_COMPLETE
            elif h[0] == "sel" and is_rank(h[2]) and not is_rank(h[3]) and h[1][0] == "eq0":
                ok = opt_field(h[1]) == F_COMPLETE
            elif not any(is_rank(x) for x in walk(h)):
                ok = True
        if not outer or lp.parent not in [o.loop for o in outer]:
            ok = False
        if ok:
            rep.ok("lu-rows", where)
        else:
            rep.bad("lu-rows", where, "rows", "the LU update does not record all the rows of the block (complete) or all "
                    "its pivotal rows: %s" % "; ".join("%s..%s" % (show(o.lo), show(o.hi)) for o in outer))
        ok = False
        for i in inner:
            if i.lo != C(0):
                continue
            h = spread(i.hi)
            parts = set(h[1:]) if h[0] == "min" else {h}
            if h[0] == "sel" or h[0] == "min" or is_rank(h):
                ok = True
            for o in outer:
                want = add(o.term, C(1))
                if h[0] == "min" and not (want in parts and any(is_rank(x) for x in parts)):
                    ok = False
        if ok:
            rep.ok("lu-rows", where + " columns")
        else:
            rep.bad("lu-rows", where, "columns", "the LU update does not record the row of L up to its diagonal: %s" %
                    "; ".join("%s..%s" % (show(o.lo), show(o.hi)) for o in inner))


def opt_field(c):
    for x in walk(c):
        if x[0] == "fld" and x[2] == "echelonize_opts":
            return x[3]
    return None


def check(b, rep):
    M = b.lib()
    whole(b, rep, M)
    elements(rep, M)
    counted(rep, M)
    rows(rep, M)
    lu(rep, M)
    rep.need("excluded", 3)
    rep.need("elements", 4)
    rep.need("rows", 1)
    rep.need("counted", 3)
    rep.need("lu-rows", 2)


if __name__ == "__main__":
    sys.exit(run("P17", check))
