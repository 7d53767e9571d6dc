"""P15: the elimination never leaves out rows that may still hold pivots."""
from common import *
import linear as ln
from linear import add, scale, const, atom, is_const, cval
import shabuf
from shabuf import Exec, State, Undecided, NewCut, field_off, sizeof, width
import cfg
from merge import Merge
import signal
import time
from api import API

BASE = set(API) - SEE_THROUGH
LIMIT = 500                   # seconds, all functions together

CSR = "%struct.spasm_csr"
LU = "%struct.spasm_lu"
OPTS = "%struct.echelonize_opts"
EXTRACT, SCHUR, DENSE, RANDOM, SOLVE = ("spasm_pivots_extract_structural", "spasm_schur", "spasm_schur_dense",
                                        "spasm_schur_dense_randomized", "spasm_sparse_triangular_solve")
EVENTS = (EXTRACT, SCHUR, DENSE, RANDOM, SOLVE, "spasm_ffpack_rref", "spasm_ffpack_LU", "spasm_csr_resize")
PARG = {EXTRACT: 3, SCHUR: 1, DENSE: 1, RANDOM: 1}
ALLOC = ("spasm_malloc", "spasm_calloc", "spasm_realloc", "malloc", "calloc", "realloc")
PURE = ("spasm_datatype_choose", "spasm_datatype_size", "spasm_get_num_threads", "omp_get_max_threads")


def canon(r):
    return tuple(ln.key(x) if isinstance(x, dict) else canon(x) if isinstance(x, tuple) else x for x in r)


class _None:
    blocks = frozenset()


def roots(v, seen=None):
    """allocations and arguments a pointer may come from"""
    seen = set() if seen is None else seen
    out, work = set(), [v]
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        if v.kind != "inst":
            out.add(v)
        elif v.op in ("gep", "bitcast", "freeze"):
            work.append(v.ops[0])
        elif v.op == "phi":
            work += [x for x, _ in v.incoming]
        elif v.op == "select":
            work += v.ops[1:]
        else:
            out.add(v)
    return out


def field_of(M, v):
    """(struct, field number) a pointer designates"""
    if v.kind == "inst" and v.op == "gep" and v.srctype in M.structs and len(v.ops) == 3 and v.ops[2].kind == "int":
        return v.srctype, v.ops[2].val
    return None


class Rows(Merge):
    SIGNED = True
    MAXSTEP = 3000000
    MULT = (1, -1, 4, -4)

    def __init__(self, M, fn, client):
        Exec.__init__(self, M, fn, client)
        self.find_rows()
        self.plan()
        self.cuts = {h for h in self.loops if h not in self.skips}

    # ---- which parts of the function matter -------------------------------------
    def find_rows(self):
        self.P = set()
        if self.cl.shape:
            self.P.add(self.fn.args[self.cl.shape.at + 1])
        for x in self.fn.blocks:
            for i in x.insts:
                if i.op == "call" and i.callee_name() in PARG:
                    self.P |= {r for r in roots(i.ops[PARG[i.callee_name()]]) if r.kind == "inst"}

    def event(self, i):
        if i.op == "call":
            return i.callee_name() in EVENTS or i.callee_name() in self.cl.parts
        if i.op == "store":
            return field_of(self.M, i.ops[1]) == (CSR, 1) or bool(roots(i.ops[1]) & self.P)
        return i.op == "ret"

    def opaque(self, v, memo):
        """depends on something this analysis does not follow"""
        if v in memo:
            return memo[v]
        memo[v] = False
        r = False
        if v.kind in ("fp", "undef", "zero", "null", "global", "cexpr"):
            r = v.kind == "fp"
        elif v.kind == "inst":
            if v.op == "load":
                f = field_of(self.M, v.ops[0])
                r = f is None and not self.tracked(v)
            elif v.op == "call":
                n = v.callee_name() or ""
                r = not (n.startswith("llvm.smin") or n.startswith("llvm.smax") or n in EVENTS or n in PURE or n in self.cl.parts)
            elif v.op == "phi":
                r = any(self.opaque(x, memo) for x, _ in v.incoming)
            elif v.type in ("double", "float") or v.op in ("fcmp", "fptosi", "fptoui"):
                r = True
            else:
                r = any(self.opaque(x, memo) for x in v.ops)
        memo[v] = r
        return r

    def asserts(self, b):
        return any(x.term.op == "unreachable" for x in b.succs)

    def loopy(self, v, seen):
        if v.kind != "inst" or v in seen:
            return False
        seen.add(v)
        if v.op == "phi":
            return v.block in self.loops or any(self.loopy(x, seen) for x, _ in v.incoming)
        return v.op not in ("load", "call") and any(self.loopy(x, seen) for x in v.ops)

    def tracked(self, v):
        a = v.ops[0]
        if roots(a) & self.P:
            return True
        for r in roots(a):
            if r.kind == "inst" and r.op == "load" and field_of(self.M, r.ops[0]) == (CSR, 3):
                return True
        return False

    def plan(self):
        ip, _ = cfg.ipdom(self.fn)
        self.region = {}
        for b in self.fn.blocks:
            if len(b.succs) < 2 and b not in self.loops:
                continue
            if self.asserts(b):
                continue
            j = ip.get(b)
            if j is None or not hasattr(j, "insts"):
                continue
            seen, work = set(), [s for s in b.succs if s is not j]
            while work:
                x = work.pop()
                if x in seen or x is j:
                    continue
                seen.add(x)
                work += x.succs
            if b in self.loops and not self.loops[b].blocks <= seen:
                continue
            if any(self.event(i) for x in seen for i in x.insts):
                continue
            self.region[b] = (seen, j)
        skip = dict(self.region)
        while True:
            need, work = set(), []
            inner = set()
            for b, (seen, j) in skip.items():
                inner |= seen
            for b in self.fn.blocks:
                for i in b.insts:
                    if self.event(i):
                        work += [o for o in i.ops]
                t = b.term
                if t.op in ("br", "switch") and len(b.succs) > 1 and b not in skip and b not in inner:
                    if not self.opaque(t.ops[0], {}) and not (self.asserts(b) and self.loopy(t.ops[0], set())):
                        work.append(t.ops[0])
            while work:
                v = work.pop()
                if v.kind != "inst" or v in need:
                    continue
                need.add(v)
                work += [x for x, _ in v.incoming] if v.op == "phi" else list(v.ops)
            bad = None
            for b in list(skip):
                seen, j = skip[b]
                if any(i in need and any(u.block not in seen for u in i.uses if u in need or self.event(u) or u is u.block.term)
                       for x in seen for i in x.insts if not (i.op == "phi" and x is j)):
                    bad = b
                for p in j.phis:
                    if p in need:
                        vs = {v if v.kind == "inst" else (v.kind, getattr(v, "val", None), getattr(v, "name", None))
                              for v, pb in p.incoming if pb in seen or pb is b}
                        if len(vs) > 1 and not self.opaque(p, {}):
                            bad = b
                if bad is not None:
                    break
            if bad is None:
                break
            del skip[bad]
        self.skips, self.need = skip, need
        self.liveness()

    def jump(self, b, st):
        seen, j = self.skips[b]
        for x in seen:
            for i in x.insts:
                if i.op == "store":
                    self.cl.forget(self, st, i)
                if i.type != "void":
                    st.env[i] = ("u",)
        vals = {}
        for p in j.phis:
            vs = [st.env.get(v, ("u",)) if v.kind in ("inst", "arg") else self.val(st, v)
                  for v, pb in p.incoming if pb in seen or pb is b]
            vals[p] = vs[0] if vs and all(v == vs[0] for v in vs) else ("u",)
        st.env.update(vals)
        return j, st

    # ---- values -------------------------------------------------------------------
    def enter(self, st, b, frm):
        if frm in self.skips and self.skips[frm][1] is b:
            return                                     # set by jump
        Exec.enter(self, st, b, frm)

    def val(self, st, v):
        if v.kind in ("inst", "arg"):
            return st.env.get(v, ("u",))
        if v.kind == "fp":
            return ("f", ("c", str(getattr(v, "val", v))))
        return Exec.val(self, st, v)

    def exact(self, st, f, w):
        return f

    def q(self, st, f, k, w=None):
        return atom(self.fresh("q"))

    def icmp(self, st, i):
        a, b = self.val(st, i.ops[0]), self.val(st, i.ops[1])
        if a[0] == "p" and b[0] == "p":
            if a[1] == b[1]:
                return ("cmp", i.pred, a[2], b[2])
            if "null" in (a[1], b[1]) and "maybe" not in (a[1], b[1]):
                o = a[1] if b[1] == "null" else b[1]
                if o == "S" or (isinstance(o, tuple) and o[0] in ("m", "U", "a")):
                    return ("i", const(int(i.pred == "ne")))
            return ("unk",)
        if a[0] in ("cmp", "and", "or", "not", "unk") and b[0] == "i" and is_const(b[1]):
            t = bool(cval(b[1]) & 1)
            return a if (i.pred == "eq") == t else ("not", a)
        if a[0] != "i" or b[0] != "i":
            return ("unk",)
        x, y = a[1], b[1]
        if i.pred[0] == "u" and not (ln.prove(st.facts, x) and ln.prove(st.facts, y)):
            return ("unk",)
        d = add(x, y, -1)
        if is_const(d):
            u = cval(d)
            p = i.pred if i.pred in ("eq", "ne") else i.pred[1:]
            return ("i", const(int({"eq": u == 0, "ne": u != 0, "lt": u < 0, "le": u <= 0, "gt": u > 0, "ge": u >= 0}[p])))
        return ("cmp", i.pred, x, y)

    def assume(self, st, c, truth):
        if c[0] in ("unk", "u", "p", "f"):
            return [st]
        if c[0] == "cmp" and c[1] in ("eq", "ne") and (c[1] == "eq") != truth:
            d = add(c[2], c[3], -1)
            return [] if ln.prove0(st.facts, d) else [st]
        if c[0] == "i" and not is_const(c[1]):
            return Exec.assume(self, st, ("cmp", "ne", c[1], const(0)), truth)
        return Exec.assume(self, st, c, truth)

    def scrutinee(self, st, v):
        r = self.val(st, v)
        return r[1] if r[0] == "i" else None

    def gep(self, st, i):
        b = self.val(st, i.ops[0])
        if b[0] != "p":
            return ("u",)
        for o in i.ops[1:]:
            if self.val(st, o)[0] != "i":
                return ("p", b[1], atom(self.fresh("off")))
        return Exec.gep(self, st, i)

    def inst(self, st, i):
        e = st.env
        op = i.op
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "frem"):
            v = [self.val(st, o) for o in i.ops]
            e[i] = ("f", (op,) + tuple(x[1] for x in v)) if all(x[0] == "f" for x in v) else ("u",)
            return [st]
        if op in ("sitofp", "uitofp"):
            a = self.val(st, i.ops[0])
            e[i] = ("f", ("int", ln.key(a[1]))) if a[0] == "i" else ("u",)
            return [st]
        if op in ("fpext", "fptrunc"):
            e[i] = self.val(st, i.ops[0])
            return [st]
        if op in ("fptosi", "fptoui"):
            a = self.val(st, i.ops[0])
            e[i] = ("i", atom(("fp", a[1]))) if a[0] == "f" else ("i", atom(self.fresh("fp")))
            return [st]
        if op == "fcmp":
            e[i] = ("unk",)
            return [st]
        if op == "select":
            c = self.cond(st, i.ops[0])
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), c, t):
                    s.env[i] = self.val(s, i.ops[1 if t else 2])
                    out.append(s)
            return out
        if op == "alloca":
            e[i] = ("p", ("a", i.id), {})
            return [st]
        return Exec.inst(self, st, i)

    def arith(self, st, i):
        a = self.val(st, i.ops[0])
        op = i.op
        if op == "ptrtoint" or a[0] in ("p", "u", "f", "w", "bs"):
            if op == "freeze":
                return a
            if op == "sub" and a[0] == "p":
                return Exec.arith(self, st, i) if self.val(st, i.ops[1])[0] == "p" and self.val(st, i.ops[1])[1] == a[1] else ("u",)
            return ("u",)
        if op == "trunc" and width(i.type) == 1 and a[0] == "i":
            return ("cmp", "ne", a[1], const(0))
        if a[0] in ("unk", "cmp", "and", "or", "not"):
            if op == "freeze":
                return a
            if op in ("zext", "sext"):
                out = []
                for t in (True, False):
                    for s in self.assume(st.copy(), a, t):
                        s.env[i] = ("i", const((1 if op == "zext" else -1) if t else 0))
                        out.append(s)
                return out
            if op == "trunc":
                return a
            b = self.val(st, i.ops[1])
            if b[0] not in ("unk", "cmp", "and", "or", "not", "i"):
                return ("unk",)
            if op in ("and", "or"):
                return (op, a, b)
            if op == "xor" and b[0] == "i" and is_const(b[1]):
                return ("not", a) if cval(b[1]) & 1 else a
            return ("unk",)
        if op == "zext":
            f = a[1]
            return ("i", f) if is_const(f) or ln.prove(st.facts, f) else ("u",)
        if op == "sext":
            return a
        if len(i.ops) > 1:
            b = self.val(st, i.ops[1])
            if b[0] in ("cmp", "and", "or", "not", "unk") and op in ("and", "or"):
                return (op, a, b)
            if b[0] != "i":
                return ("u",)
            if op in ("lshr", "ashr", "udiv", "sdiv", "urem", "srem", "and", "or", "xor") and not (is_const(a[1]) and is_const(b[1])):
                return ("u",)
        return Exec.arith(self, st, i)

    def load(self, st, i):
        p = self.val(st, i.ops[0])
        if p[0] != "p":
            return ("u",)
        return self.cl.load(self, st, i, p, sizeof(self.M, i.type))

    def store(self, st, i, p, v, n):
        self.cl.store(self, st, i, p, v, n)

    def call(self, st, i):
        n = i.callee_name() or ""
        if n.startswith(("llvm.smin", "llvm.smax", "llvm.umin", "llvm.umax")):
            a, b = (self.val(st, o) for o in i.ops[:2])
            if a[0] != "i" or b[0] != "i":
                st.env[i] = ("u",)
                return [st]
            out = []
            for t in (True, False):
                for s in self.assume(st.copy(), ("cmp", "slt", a[1], b[1]), t):
                    s.env[i] = a if t == ("min" in n) else b
                    out.append(s)
            return out
        if n.startswith("llvm.") and not n.startswith(("llvm.mem", "llvm.ceil")):
            if i.type != "void":
                st.env[i] = ("u",)
            return [st]
        if n.startswith("llvm.mem") or n in ("memcpy", "memset", "memmove", "bzero"):
            d = self.val(st, i.ops[0])
            self.cl.wiped(self, st, i, d)
            return [st]
        st.env[i] = ("u",)
        r = self.cl.call(self, st, i, n)
        return [st] if r is None else r

    # ---- loops ----------------------------------------------------------------------
    def cond(self, st, v):
        if v.kind == "inst" and v not in self.need:
            return ("unk",)
        return Exec.cond(self, st, v)

    def limits(self, L, st):
        out = []
        for i in self.need:
            if i.op == "icmp" and i.block in L.blocks:
                for o in i.ops:
                    while o.kind == "inst" and o.op in ("sext", "zext", "trunc", "freeze") and o.block in L.blocks:
                        o = o.ops[0]
                    r = ("i", const(o.val)) if o.kind == "int" else None
                    if o.kind == "arg" or (o.kind == "inst" and o.block not in L.blocks):
                        r = st.env.get(o)
                    if r and r[0] == "i" and r[1] not in out:
                        out.append(r[1])
        return sorted(out, key=str)

    def part(self, L, st):
        return self.cl.part(self, L, st)

    def variables(self, L, h, st):
        out = []
        for p in h.phis:
            v = st.env.get(p)
            if v is not None and v[0] in ("i", "p"):
                out.append((p, v[1] if v[0] == "i" else v[2]))
        for k in self.cl.slots(self, L, st):
            out.append((k, st.mem[k][1][1]))
        for k in sorted(st.g):
            if isinstance(st.g[k], dict):
                out.append((k, st.g[k]))
        return out


def subst_base(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple) and v and v[0] == "fld":
        return ("fld", subst_base(v[1], old, new), v[2])
    return v


class Client:
    def __init__(self, M, fn, parts, shape=None):
        self.M, self.fn, self.parts, self.shape = M, fn, parts, shape
        o = lambda t, k: field_off(M, t, k)[0]
        self.n, self.m, self.p = o(CSR, 1), o(CSR, 2), o(CSR, 3)
        self.luU = o(LU, 3)
        self.gplu = o(OPTS, 3)
        self.msgs = {}
        self.count = {}

    # ---- hooks of the interpreter -------------------------------------------------
    def restart(self):
        self.msgs, self.count, self.cannot = {}, {}, {}
        self.visited = set()

    def newturns(self):
        pass

    def settle(self, ex, s, h):
        pass

    def bounds(self, ex, names):
        return []

    def slots(self, ex, L, st):
        return sorted(k for k in st.mem if isinstance(k[0], tuple) and k[0][0] == "U" and k[1] == self.n)

    def part(self, ex, L, st):
        ph = []
        for p in L.header.phis:
            v = st.env.get(p, ("u",))
            if p.type == "ptr":
                ph.append(v[1] if v[0] == "p" else None)
        g = st.g
        return (g["cur"], g["pv"], g["src"], tuple(ph))

    def havoc(self, ex, L, st, old=None):
        for p in L.header.phis:
            v = st.env.get(p)
            if v is None or v[0] not in ("i", "p"):
                st.env[p] = ("u",)
        touched = {r.id for x in L.blocks for i in x.insts if i.op == "store" for r in roots(i.ops[1]) if r.kind == "inst"}
        calls = {i.callee_name() for x in L.blocks for i in x.insts if i.op == "call"}
        stores = {field_of(self.M, i.ops[1]) for x in L.blocks for i in x.insts if i.op == "store"}
        for k in list(st.mem):
            b = k[0]
            if b == "opts" or (isinstance(b, tuple) and b[0] == "a" and b[1] not in touched):
                continue
            if isinstance(b, tuple) and b[0] == "U" and k[1] == self.n:
                continue
            if st.mem[k][1][0] == "p" and not (st.mem[k][1][1] != "null" and any(f and f[0] == LU for f in stores)):
                continue
            if b == "S" and SCHUR not in calls:
                continue
            del st.mem[k]
        if SCHUR in calls and not self.shape:
            st.env[self.fn.args[0]] = ("p", "maybe", {})
        if st.g["cur"] == "S":
            st.mem[("S", self.n)] = (4, ("i", st.g["An"]))
            st.mem[("S", self.m)] = (4, ("i", atom("m0")))
        if any(f and f[0] == OPTS for f in stores):
            for k in [k for k in st.mem if k[0] == "opts"]:
                del st.mem[k]
        st.g["buf"] = None

    def forget(self, ex, st, i):
        f = field_of(self.M, i.ops[1])
        if f is None:
            return
        off = field_off(self.M, f[0], f[1])[0]
        b = st.env.get(i.ops[1].ops[0], ("u",))
        for k in [k for k in st.mem if k[1] == off]:
            if not (isinstance(k[0], tuple) and k[0][0] == "U" and off == self.n) and (b[0] != "p" or k[0] == b[1]) and \
                    k[0] not in ("S", "S") and (k[0] != "opts" or f[0] == OPTS):
                del st.mem[k]

    def wiped(self, ex, st, i, d):
        if d[0] == "p":
            for k in [k for k in st.mem if k[0] == d[1]]:
                del st.mem[k]

    def bad(self, ex, key, where, msg):
        if not ex.quiet:
            self.msgs.setdefault((key, where.loc), (where, msg))

    # ---- memory -----------------------------------------------------------------------
    def start(self, fn):
        st = State()
        g = st.g
        for a in fn.args:
            st.env[a] = ("u",)
        N, m = atom("n0"), atom("m0")
        g.update(N=N, An=N, d={}, f={}, ur={}, dr={}, src="", cur="S", pv="none", buf=None, rrs=(), U=None, done=False)
        st.facts += [N, m]
        h = self.shape
        if h:
            U = atom("u0")
            g.update(An=atom("a0"), U=("U", 0), pv="cur", ur=U)
            st.mem[(g["U"], self.n)] = (4, ("i", U))
            st.mem[("fact", self.luU)] = (8, ("p", g["U"], {}))
            st.facts += [g["An"], U]
            st.env[fn.args[h.at]] = ("p", "S", {})
            st.env[fn.args[h.at + 1]] = ("p", ("m", "P"), {})
            st.env[fn.args[h.at + 2]] = ("i", N)
            for a in h.facts:
                st.env[a] = ("p", "fact", {})
            for a in h.opts:
                st.env[a] = ("p", "opts", {})
            for a in h.us:
                st.env[a] = ("p", g["U"], {})
        else:
            st.env[fn.args[0]] = ("p", "S", {})
            st.env[fn.args[1]] = ("p", "opts", {})
        st.mem[("S", self.n)] = (4, ("i", g["An"]))
        st.mem[("S", self.m)] = (4, ("i", m))
        return st

    def base(self, b):
        return b

    def load(self, ex, st, i, p, n):
        b, off = p[1], p[2]
        if i not in ex.need and i.type != "ptr":
            return ("u",)
        f = field_of(self.M, i.ops[0])
        if f and f[0] == OPTS and f[1] not in (3, 9):
            return ("u",)
        if isinstance(b, tuple) and b[0] == "m" and b in self.rows(ex):
            return ("pv", off, st.g["pv"])
        if not is_const(off):
            if isinstance(b, tuple) and b[0] == "fld" and b[2] == self.p and b[1] == st.g["cur"] and n == 8 and \
                    ln.prove0(st.facts, add(off, st.g["An"], -8)):
                return self.slot(ex, st, (b[1], "nnz"), i, n, True)
            return ("u",)
        return self.slot(ex, st, (b, cval(off)), i, n)

    def slot(self, ex, st, k, i, n, pos=False):
        if k in st.mem:
            return st.mem[k][1]
        b, off = k
        if i.type == "ptr":
            return ("p", ("fld", b, off), {})
        elif i.type == "double":
            v = ("f", ("ld", b, off))
        else:
            a = atom(ex.fresh(("ld", b, off)))
            v = ("i", a)
            if pos:
                st.facts.append(a)
        st.mem[k] = (n, v)
        return v

    def rows(self, ex):
        return {("m", r.id if r.kind == "inst" else "P") for r in ex.P}

    def store(self, ex, st, i, p, v, n):
        if p[0] != "p":
            if ex.event(i):
                raise Undecided("store")
            self.forget(ex, st, i)
            return
        b, off = p[1], p[2]
        g = st.g
        if isinstance(b, tuple) and b[0] == "m" and b in self.rows(ex):
            if g["pv"] != "fill":
                g["pv"], g["f"] = "fill", {}
                g["d"] = {}
                g["ur"], g["dr"] = self.un(st), {}
            if v[0] == "i" and ln.prove0(st.facts, add(off, v[1], -4)) and ln.prove0(st.facts, add(v[1], g["f"], -1)):
                g["f"] = add(g["f"], const(1))
            else:
                g["f"] = atom(ex.fresh("f"))
            return
        if not is_const(off) or b == "null":
            return
        k = (b, cval(off))
        if b == g["cur"] and k[1] in (self.n, self.m):
            raise Undecided("the matrix changes size")
        if v[0] == "p" or (v[0] == "i" and isinstance(b, tuple) and (b[0] == "a" or k == (g["U"], self.n))):
            st.mem[k] = (n, v)
        else:
            st.mem.pop(k, None)
            if isinstance(b, tuple) and b[0] == "U" and k[1] == self.n:
                st.mem[k] = (4, ("i", atom(ex.fresh("un"))))

    def copy(self, *a):
        pass

    def set(self, *a):
        pass

    def un(self, st):
        U = st.g["U"]
        k = (U, self.n)
        if U is None or k not in st.mem:
            raise Undecided("no row count for U")
        return st.mem[k][1][1]

    # ---- events ---------------------------------------------------------------------------
    def valid(self, ex, st):
        g = st.g
        return g["pv"] == "cur" or (g["pv"] == "fill" and ln.prove(st.facts, add(g["f"], g["N"], -1)))

    def window(self, ex, st, i, a, p, cnt, what):
        """the rows p[start .. start+cnt) of the matrix a handed to an operation; (start, end) or None"""
        g = st.g
        A = ex.val(st, i.ops[a])
        P = ex.val(st, i.ops[p])
        n = ex.val(st, i.ops[cnt])
        if A[0] != "p" or P[0] != "p" or n[0] != "i":
            raise Undecided("arguments of " + what)
        if A[1] != g["cur"]:
            self.bad(ex, "matrix", i, "%s works on a matrix that is not the one still to be eliminated" % what)
            return None
        if P[1] not in self.rows(ex):
            raise Undecided("rows of " + what)
        start = P[2]                                  # in bytes
        end = add(start, n[1], 4)
        if not self.valid(ex, st) and not ln.prove(st.facts, scale(n[1], -1)):
            self.bad(ex, "stale", i, "%s uses a table of rows that was not made for the current matrix" % what)
            return None
        if not ln.prove(st.facts, add(st.g["d"], start, -1)):
            self.bad(ex, "skip", i, "%s starts beyond the first row still to be processed" % what)
            return None
        if not ln.prove(st.facts, add(scale(g["N"], 4), end, -1)):
            self.bad(ex, "beyond", i, "%s goes beyond the last row" % what)
        return start, end

    def call(self, ex, st, i, n):
        g = st.g
        k = lambda name: self.count.__setitem__(name, self.count.get(name, set()) | {i.id})
        if n in ALLOC:
            st.env[i] = ("p", ("m", i.id), {})
        elif n == "spasm_csr_alloc":
            st.env[i] = ("p", ("U", i.id), {})
            if g["U"] not in (None, ("U", i.id)):
                raise Undecided("several matrices are built")
            g["U"] = ("U", i.id)
            v = ex.val(st, i.ops[0])
            st.mem[(g["U"], self.n)] = (4, v if v[0] == "i" else ("i", atom(ex.fresh("un"))))
        elif n == EXTRACT:
            k(n)
            A = ex.val(st, i.ops[0])
            P = ex.val(st, i.ops[3])
            if A[0] != "p" or P[0] != "p":
                raise Undecided("arguments of " + n)
            if A[1] != g["cur"]:
                self.bad(ex, "matrix", i, "pivots are searched in a matrix that is not the one still to be eliminated")
            if P[1] not in self.rows(ex) or P[2]:
                raise Undecided("row table")
            np, un = atom(ex.fresh("npiv")), atom(ex.fresh("un"))
            st.facts += [np, add(g["N"], np, -1), un]
            st.env[i] = ("i", np)
            g["pv"], g["d"], g["src"] = "cur", scale(np, 4), ""
            st.mem[(g["U"], self.n)] = (4, ("i", un))
            g["ur"], g["dr"] = un, scale(np, 4)
            g["done"] = False
        elif n == SCHUR:
            k(n)
            w = self.window(ex, st, i, 0, 1, 2, "the Schur complement")
            if w and not ln.prove(st.facts, add(w[1], g["N"], -4)):
                self.bad(ex, "drop", i, "the Schur complement leaves out the last rows")
            c = ex.num(st, i.ops[2])
            for key, v in list(st.env.items()):
                if v[0] == "p" and subst_base(v[1], "S", "old") != v[1]:
                    st.env[key] = ("p", subst_base(v[1], "S", "old"), v[2])
            m = st.mem.get((g["cur"], self.m))
            for key in list(st.mem):
                if subst_base(key[0], "S", "old") != key[0]:
                    del st.mem[key]
                elif st.mem[key][1][0] == "p" and subst_base(st.mem[key][1][1], "S", "old") != st.mem[key][1][1]:
                    del st.mem[key]
            st.env[i] = ("p", "S", {})
            st.mem[("S", self.n)] = (4, ("i", c))
            st.mem[("S", self.m)] = (4, ("i", atom("m0")))
            st.facts.append(c)
            g.update(cur="S", N=c, An=c, d={}, pv="none", src="", ur=self.un(st), dr={}, rrs=(), buf=None, done=False)
        elif n == DENSE:
            k(n)
            w = self.window(ex, st, i, 0, 1, 2, "the dense Schur complement")
            if w:
                if ln.prove(st.facts, add(w[1], g["d"], -1)):
                    g["d"] = w[1]
            g["src"] = ""
            g["buf"] = None
        elif n == RANDOM:
            k(n)
            w = self.window(ex, st, i, 0, 1, 2, "the random combination of rows")
            full = bool(w) and ln.prove(st.facts, add(w[1], g["N"], -4))
            if w and not full:
                self.bad(ex, "last", i, "the random combinations leave out the last rows")
            if g["src"] != n:
                g["src"], g["ur"], g["dr"] = n, self.un(st), g["d"]
            S, wt, cnt = ex.val(st, i.ops[5]), ex.val(st, i.ops[9]), ex.val(st, i.ops[8])
            ok = full and wt[0] == "i" and ln.prove0(st.facts, wt[1]) and cnt[0] == "i" and self.many(ex, st, cnt[1])
            g["buf"] = (S[1], ln.key(cnt[1]), ok) if w and S[0] == "p" and cnt[0] == "i" else None
        elif n == SOLVE:
            k(n)
            A, r = ex.val(st, i.ops[1]), ex.val(st, i.ops[2])
            if A[0] != "p" or A[1] != g["cur"]:
                self.bad(ex, "matrix", i, "a row is reduced that is not a row of the matrix still to be eliminated")
            if r[0] != "pv":
                raise Undecided("row number")
            if not self.valid(ex, st):
                self.bad(ex, "stale", i, "a row is looked up in a table that was not made for the current matrix")
            elif ln.prove0(st.facts, add(r[1], g["d"], -1)):
                g["d"] = add(g["d"], const(4))
        elif n in ("spasm_ffpack_rref", "spasm_ffpack_LU"):
            rr = atom(ex.fresh("rr"))
            st.env[i] = ("i", rr)
            st.facts.append(rr)
            S, cnt = ex.val(st, i.ops[3]), ex.val(st, i.ops[1])
            if g["buf"] and S[0] == "p" and cnt[0] == "i" and g["buf"][:2] == (S[1], ln.key(cnt[1])):
                if g["buf"][2]:
                    g["rrs"] = g["rrs"] + (rr,)
            g["buf"] = None
        elif n == "spasm_csr_resize":
            M0, r = ex.val(st, i.ops[0]), ex.val(st, i.ops[1])
            if M0[0] == "p" and M0[1] == g["U"]:
                k(n)
                if r[0] == "i" and not ln.prove(st.facts, add(r[1], self.un(st), -1)):
                    self.bad(ex, "trim", i, "U is cut to fewer rows than it has")
                if r[0] == "i":
                    st.mem[(g["U"], self.n)] = (4, r)
        elif n in self.parts:
            k("part")
            h = self.parts[n]
            w = self.window(ex, st, i, h.at, h.at + 1, h.at + 2, "the elimination of the remaining rows")
            full = bool(w) and ln.prove(st.facts, add(w[1], g["N"], -4))
            if w and not full:
                self.bad(ex, "drop", i, "the last rows are left out of the elimination of the remaining rows")
            if not h.test:
                g["d"] = scale(g["N"], 4)
                st.mem[(g["U"], self.n)] = (4, ("i", atom(ex.fresh("un"))))
                return None
            s1, s0 = st.copy(), st
            s1.env[i], s0.env[i] = ("i", const(1)), ("i", const(0))
            if full:
                for s, known in ((s1, h.yes), (s0, h.no)):
                    if known:
                        s.g["d"] = scale(g["N"], 4)
            return [s1, s0]
        elif n in PURE:
            st.env[i] = ("u",)
        elif n == "log2" or n == "log" or n == "ceil" or n.startswith("llvm.ceil"):
            a = ex.val(st, i.ops[0])
            st.env[i] = ("f", (n.replace("llvm.ceil.f64", "ceil"), a[1])) if a[0] == "f" else ("u",)
        return None

    def many(self, ex, st, c):
        """enough combinations: at least 64 bits worth of coefficients modulo the prime"""
        if ln.prove(st.facts, add(c, const(-64))):
            return True
        if len(c) == 1:
            (a, k), = c.items()
            if k >= 1 and isinstance(a, tuple) and a[0] == "fp":
                return self.bits(a[1])
        return False

    def bits(self, t):
        if not isinstance(t, tuple):
            return False
        if t[0] == "ceil":
            return self.bits(t[1])
        if t[0] == "fadd":
            return any(self.bits(x) for x in t[1:])
        if t[0] == "fdiv":
            try:
                return t[1][0] == "c" and float(t[1][1]) >= 64 and t[2][0] == "log2"
            except (ValueError, TypeError):
                return False
        return False

    def summary(self, ex, st):
        if not ex.quiet and not st.g["done"] and self.finished(st):
            st.g["done"] = True

    def finished(self, st):
        g, F = st.g, st.facts
        nnz = st.mem.get((g["cur"], "nnz"))
        gp = st.mem.get(("opts", self.gplu))
        m = atom("m0")
        if (g["U"], self.n) not in st.mem:
            return False
        un = self.un(st)
        N4 = scale(g["N"], 4)
        return (ln.prove(F, add(g["d"], N4, -1)) or
              (nnz and ln.prove(F, scale(nnz[1][1], -1))) or
              any(ln.prove(F, scale(r, -1)) for r in g["rrs"]) or
              ln.prove(F, add(un, m, -1)) or
              ln.prove(F, add(scale(add(un, g["ur"], -1), 4), add(N4, g["dr"], -1), -1)) or
              any(k[1] == self.gplu and k[0] in ("opts",) or (isinstance(k[0], tuple) and k[0][0] == "a" and k[1] == self.gplu)
                  for k in st.mem if st.mem[k][1][0] == "i" and ln.prove0(F, st.mem[k][1][1])))

    def ret(self, ex, st, t):
        if ex.quiet:
            return
        self.count.setdefault("ret", set()).add(ex.paths)
        if self.shape and self.shape.test:
            for v in (True, False):
                for s in ex.assume(st.copy(), ex.cond(st, t.ops[0]), v):
                    if not s.g["done"] and not self.finished(s):
                        self.cannot.setdefault(v, t)
            return
        if not st.g["done"] and not self.finished(st):
            self.bad(ex, "left", t, "the elimination can end with rows that were neither processed, nor shown to be zero, nor "
                     "beyond the possible rank" + self.trace(ex, st))

    def trace(self, ex, st):
        return ""


class Shape:
    """a part of the elimination that works on the rows p[0 .. n) of A: arguments (.., A, p, n, ..)"""
    at = test = None
    facts = opts = us = ()
    yes = no = False              # a test: does the answer show that nothing is left?


def mentions(M, fn, t):
    return [a for a in fn.args if any(i.op == "gep" and i.srctype == t and roots(i.ops[0]) == {a} for b in fn.blocks for i in b.insts)]


def shape(M, fn, known):
    """Shape of a function, or None"""
    def uses(i):
        n = i.callee_name()
        return {EXTRACT: (0, 3), SCHUR: (0, 1), DENSE: (0, 1), RANDOM: (0, 1)}.get(n) or \
            ((known[n].at, known[n].at + 1) if n in known else None)
    calls = [i for b in fn.blocks for i in b.insts if i.op == "call"]
    rets = [b.term for b in fn.blocks if b.term.op == "ret"]
    if not rets or any(r.ops and r.ops[0].type != "i1" for r in rets) or not \
            (any(uses(i) for i in calls) or any(i.callee_name() == SOLVE for i in calls)):
        return None
    for k in range(len(fn.args) - 2):
        A, p, n = fn.args[k:k + 3]
        if A.type != "ptr" or p.type != "ptr" or n.type not in ("i32", "i64"):
            continue
        ok = False
        for i in calls:
            u = uses(i)
            if u and roots(i.ops[u[0]]) == {A} and p in roots(i.ops[u[1]]):
                ok = True
            if i.callee_name() == SOLVE and roots(i.ops[1]) == {A}:
                r = i.ops[2]
                ok |= r.kind == "inst" and r.op == "load" and roots(r.ops[0]) == {p}
        if ok:
            h = Shape()
            h.at, h.test = k, bool(rets[0].ops)
            h.facts = [a for a in mentions(M, fn, LU) if a not in (A, p)]
            h.opts = [a for a in mentions(M, fn, OPTS) if a not in (A, p)]
            h.us = {a for i in calls if i.callee_name() in (RANDOM, SOLVE)
                    for a in roots(i.ops[3 if i.callee_name() == RANDOM else 0]) if a.kind == "arg" and a is not A}
            for i in calls:                            # handed to another part
                q = known.get(i.callee_name())
                if q:
                    g = M.functions[i.callee_name()]
                    for mine, theirs in ((h.facts, q.facts), (h.opts, q.opts)):
                        for a, o in zip(g.args, i.ops):
                            if a in theirs and o.kind == "arg" and o not in mine:
                                mine.append(o)
            return h
    return None


def parts_of(b):
    """the functions that eliminate a whole range of rows, called at most once; and tests on such a range"""
    keep = Parts()
    M = b.lib(keep=keep)
    top = M.functions.get("spasm_echelonize")
    callers = {}
    for f in M.functions.values():
        for x in f.blocks:
            for i in x.insts:
                if i.op == "call" and i.callee_name():
                    callers.setdefault(i.callee_name(), []).append(i)
    known = {}
    while True:
        new = False
        for f in sorted(M.functions.values(), key=lambda f: f.name):
            if not f.blocks or f.name in BASE or f.name in known:
                continue
            h = shape(M, f, known)
            if h is None:
                continue
            sites = callers.get(f.name, [])
            if not sites or (not h.test and any(i.block in L.blocks for i in sites for L in cfg.loops(i.block.fn))):
                continue
            known[f.name] = h
            new = True
        if not new:
            return known


class Parts:
    def __contains__(self, n):
        return True


class Late(Exception):
    pass


def late(*a):
    raise Late


def check(b, rep):
    rep.rule("rows", "path-wise affine interpretation of the elimination: every operation works on the current matrix, on a row table "
             "made for it, on a window that starts no later than the first unprocessed row and ends at the last row; when it ends, "
             "all rows are processed, or the rest was found zero, or the pivots found exhaust the rows or the columns, or the user "
             "disabled every finishing method")
    rep.expl = ("Affine path-wise interpretation of the elimination over LLVM IR (loops summarised at their headers by inferred relations, "
                "states merged at joins). Functions that eliminate a whole range of rows, or test one for completion, are analysed on their "
                "own, from an arbitrary state, and replaced by what was shown about them at their calls; other helpers are inlined.")
    rep.assumptions = ["the operations of the public interface (Schur complements, pivot extraction, dense eliminations) treat the "
                       "whole window they are given", "sizes fit their types"]
    end = time.time() + LIMIT
    known = parts_of(b)
    M = b.lib(keep=BASE | set(known))
    parts = {n: shape(M, M.functions[n], known) or h for n, h in known.items()}
    for name in sorted(parts, key=lambda n: (not parts[n].test, list(known).index(n))) + ["spasm_echelonize"]:
        fn = M.functions.get(name)
        cl = Client(M, fn, parts, parts.get(name))
        signal.signal(signal.SIGALRM, late)
        signal.alarm(max(1, int(end - time.time())))
        try:
            ex = Rows(M, fn, cl)
            ex.run(cl.start(fn))
            h = cl.shape
            if h and h.test:
                h.yes, h.no = True not in cl.cannot, False not in cl.cannot
                if not h.yes and not h.no:
                    rep.bad("rows", cl.cannot[True], "test", "the completion test can succeed although rows that were neither processed "
                            "nor combined at random may remain")
        except (Undecided, Late) as e:
            if cl.shape and cl.shape.test:
                cl.shape.yes = True
            rep.ok("rows", fn.name, "not decided: %s" % (e if isinstance(e, Undecided) else "too many states"))
            continue
        finally:
            signal.alarm(0)
        for (key, loc), (w, msg) in sorted(cl.msgs.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            rep.bad("rows", w, key, msg)
        rep.ok("rows", fn.name, "%d loops summarised, %d regions without bearing, %d returns" %
               (len(ex.cuts), len(ex.skips), len(cl.count.get("ret", ()))))


if __name__ == "__main__":
    sys.exit(run("P15", check))
