"""P34: the command-line tools deliver the documented function of their input."""
from common import *
from itertools import product
import cfg
import nest
import options
import pts
import sym
from nest import Store, Tree
from options import plain
from sym import C, add, el, el_split, show, subst, walk
from p27 import Bad, at, fld, implied, loc, nonneg

CSR, TRI, LU = "spasm_csr", "spasm_triplet", "spasm_lu"
STOP = {"err", "errx", "abort", "__assert_fail", "verr", "verrx", "_exit"}
OUT = {"printf", "puts", "putchar", "vprintf"}
FOUT = {"fprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "fwrite": 3, "vfprintf": 0}
# functions of the library that only look at the objects they are given
LOOK = {"spasm_nnz", "spasm_human_format", "spasm_factorization_verify", "spasm_get_prime", "spasm_row_weight",
        "spasm_wtime", "fflush", "fclose", "snprintf", "fprintf", "printf", "puts", "fputs", "fputc", "putc", "putchar"}
FREE = {"free", "spasm_csr_free", "spasm_triplet_free", "spasm_lu_free", "spasm_dm_free", "spasm_rank_certificate_free"}
# numbers of fields
R, U, N, M_ = 0, 3, 1, 2


def flip(x):
    return x[1] if x[0] == "T" else ("T", x)


def say(v):
    if not isinstance(v, tuple):
        return str(v)
    if v and v[0] == "load":
        return "the matrix read from %s modulo %s" % (say(v[1]), say(v[2]))
    if v and v[0] == "opt":
        return "the value of " + "/".join("--" + x for x in v[1]) if v[1] else "a value no option sets"
    if v and v[0] == "num":
        return str(v[1])
    if v and v[0] == "fopen":
        return "the file named by %s (mode %s)" % (say(v[1]), v[2])
    if not v:
        return "()"
    return "%s(%s)" % (v[0], ", ".join(say(x) for x in v[1:]))


class Flow:
    """what every object of one path through main is"""

    def __init__(self, tool, p):
        self.tool, self.p = tool, p
        self.val = {}               # handle -> value
        self.tri = {}               # triplet list -> value
        self.hash = {}              # buffer -> file whose digest it holds
        self.freed = set()
        self.out = []               # results delivered, in order
        self.prints = []            # (term lists) printed anywhere
        self.L = None               # value of the "keep L" option when factoring
        self.code = None
        self.verdict = None
        self.mem = {}
        self.ran = set()

    # -- naming ------------------------------------------------------------
    def source(self, t):
        t = plain(t)
        if t[0] == "ld" and t[1][0] == "glob":
            if t[1][1] in ("stdin", "stdout", "stderr"):
                return t[1][1]
        if t[0] == "call" and t[1] == "fopen":
            a = self.files.get(t)
            if a is not None:
                return ("fopen", self.scalar(a[0]), self.string(a[1]))
        return ("?", show(t))

    def string(self, t):
        t = plain(t)
        if t[0] == "glob":
            g = self.tool.M.globals.get(t[1])
            if g is not None and g.init is not None and g.init.kind == "str":
                s = g.init.val
                return (s if isinstance(s, bytes) else s.encode()).split(b"\0")[0].decode(errors="replace")
        return "?"

    def scalar(self, t):
        t = plain(t)
        if t[0] == "c":
            return ("num", t[1])
        o = self.tool.opts
        if o is not None:
            pl = o.place_of(t)
            if pl is not None:
                return ("opt", tuple(sorted(n for n, x in o.opts.items() if pl in x.places())))
        return ("?", show(t))

    def place_ok(self, a):
        """the options structure filled from the command line"""
        return a in self.tool.echopts

    # -- events ------------------------------------------------------------
    def use(self, h, i):
        h = plain(h)
        if h in self.freed:
            raise Bad(i.loc, "%s is used after it has been released" % show(h))
        return h

    def matrix(self, h, i, what="matrix"):
        h = self.use(h, i)
        if h in self.val:
            return self.val[h]
        if h[0] == "ld" and h[1][0] == "fld" and h[1][2] == LU and h[1][3] in (2, 3):
            f = self.matrix(h[1][1], i)
            return ("U" if h[1][3] == 3 else "L", f)
        raise Bad(i.loc, "%s: %s is not the result of a computation of the library" % (what, show(h)))

    def array(self, h, i):
        h = self.use(h, i)
        if h in self.val:
            return self.val[h]
        if h[0] == "ld" and h[1][0] == "fld" and h[1][2] == "spasm_dm" and h[1][3] in (0, 1):
            return ("row order" if h[1][3] == 0 else "column order", self.matrix(h[1][1], i))
        if h == ("null",):
            return "none"
        raise Bad(i.loc, "%s is not a permutation computed by the library" % show(h))

    def root(self, t):
        """object that an address belongs to"""
        t = plain(t)
        while True:
            if t in self.val or t in self.tri:
                return t
            if t[0] in ("fld", "el", "ld"):
                t = t[1]
            else:
                return t

    def run(self):
        self.files = {}
        for e in self.p.events:
            if isinstance(e, Store):
                self.store(e)
            elif e[0] == "loop":
                self.loop(e)
            elif e[0] == "call":
                self.call(e[1], e[2], e[3])
                if e[1] in STOP:
                    self.code = "stop"
                    break
                if e[1] == "exit":
                    self.code = plain(e[2][0])
                    break
        if self.code is None:
            self.code = plain(self.p.ret) if self.p.ret is not None else "stop"
        return self

    def store(self, e):
        a = plain(e.addr)
        r = self.root(a)
        if r in self.val or r in self.tri:
            raise Bad(e.inst.loc, "%s is modified by the tool itself" % show(r))
        o = self.tool.opts
        if o is not None and o.named(a) and e.val is not None:
            raise Bad(e.inst.loc, "the value given with --%s is overwritten" % o.named(a)[0])
        self.mem[a] = plain(e.val)

    def loop(self, e):
        for b in sorted(self.tool.T_touched(e[1]), key=sym.key):
            r = self.root(b)
            if r in self.val or r in self.tri:
                raise Bad(loc(e[1]), "%s is modified by the tool itself" % show(r))
        for b in e[1].blocks:
            for i in b.insts:
                if i.op == "call":
                    n = i.callee_name() or "?"
                    if n in OUT:
                        self.prints.append(("loop", i))

    def call(self, n, args, i):
        h = ("call", n, i)
        v = None
        if n == "fopen":
            self.files[h] = args
            return
        if n == "spasm_triplet_load":
            src = self.source(args[0])
            self.tri[h] = ("load", src, self.scalar(args[1]))
            if plain(args[2]) != ("null",):
                self.hash[plain(args[2])] = self.tri[h]
            return
        if n in FREE:
            self.freed.add(plain(args[0]))
            return
        if n == "spasm_triplet_transpose":
            t = self.use(args[0], i)
            if t not in self.tri:
                raise Bad(i.loc, "something else than an input matrix is transposed")
            self.tri[t] = flip(self.tri[t])
            return
        if n == "spasm_compress":
            t = self.use(args[0], i)
            if t not in self.tri:
                raise Bad(i.loc, "the list of entries that is compressed was not read from a file")
            v = ("csr", self.tri[t])
        elif n == "spasm_transpose":
            a = self.matrix(args[0], i)
            if a[0] == "csr" and plain(args[1])[0] == "c":
                v = ("csr" if plain(args[1]) != C(0) else "pattern", flip(a[1]))
            else:
                v = ("transpose", a, show(plain(args[1])))
        elif n == "spasm_echelonize":
            a = self.matrix(args[0], i)
            o = plain(args[1])
            if o != ("null",) and not self.place_ok(o):
                raise Bad(i.loc, "the factorization does not use the options of the command line")
            if o == ("null",) and self.tool.hasopts:
                raise Bad(i.loc, "the factorization ignores the options of the command line")
            k = self.mem.get(("fld", o, "echelonize_opts", 4))
            v = ("factors", a)
            self.L = k is not None and k[0] == "c" and k[1] != 0
        elif n == "spasm_kernel":
            v = ("kernel", self.matrix(args[0], i))
        elif n == "spasm_rref":
            v = ("rref", self.matrix(args[0], i))
        elif n == "spasm_gesv":
            f = self.matrix(args[0], i)
            if not self.L:
                raise Bad(i.loc, "systems are solved with a factorization computed without L")
            v = ("solution", f, self.matrix(args[1], i))
            self.val[plain(args[2])] = ("solved", f)
        elif n == "spasm_dulmage_mendelsohn":
            v = ("dm", self.matrix(args[0], i))
        elif n == "spasm_pinv":
            v = ("inverse", self.array(args[0], i), self.count(args[1]))
        elif n == "spasm_permute":
            v = ("permuted", self.matrix(args[0], i), self.array(args[1], i), self.array(args[2], i), show(plain(args[3])))
        elif n == "spasm_certificate_rank_create":
            if not self.L:
                raise Bad(i.loc, "a certificate is made from a factorization computed without L")
            v = ("certificate", self.matrix(args[0], i), self.digest(args[1], i), self.matrix(args[2], i))
        elif n == "spasm_rank_certificate_load":
            self.val[plain(args[1])] = ("certificate of", self.source(args[0]))
            self.ran.add(h)
            return
        elif n == "spasm_certificate_rank_verify":
            c = self.use(args[2], i)
            if c not in self.val:
                raise Bad(i.loc, "the certificate that is checked was neither made nor loaded")
            v = ("verdict", self.matrix(args[0], i), self.digest(args[1], i), self.val[c])
            self.verdict = (h, v)
        elif n in ("spasm_csr_save", "spasm_triplet_save"):
            x = self.use(args[0], i)
            w = self.matrix(x, i, "what is saved") if n == "spasm_csr_save" else ("list", self.tri.get(x, show(x)))
            self.out.append((w, self.source(args[1]), i))
            return
        elif n == "spasm_rank_certificate_save":
            self.out.append((self.matrix(args[0], i, "what is saved"), self.source(args[1]), i))
            return
        elif n == "spasm_save_pnm":
            m = plain(args[4])
            self.out.append((("picture", self.matrix(args[0], i), ("num", m[1]) if m[0] == "c" else self.scalar(m),
                              self.array(args[5], i) if plain(args[5]) == ("null",) else self.matrix(args[5], i)),
                             self.source(args[1]), i))
            return
        elif n in OUT or n in FOUT and self.source(args[FOUT[n]]) == "stdout":
            self.prints.append(("call", i))
        if v is not None:
            self.val[h] = v
            return
        if n in OUT or n in FOUT:
            self.shown = getattr(self, "shown", []) + [(n, tuple(plain(a) for a in args), i)]
        if n not in LOOK and n not in nest.HARMLESS:
            for a in args:
                r = self.root(plain(a))
                if r in self.val or r in self.tri:
                    raise Bad(i.loc, "%s may modify %s" % (n, show(r)))

    def count(self, t):
        """a dimension, in words"""
        t = plain(t)
        if t[0] == "ld" and t[1][0] == "fld" and t[1][2] == CSR and t[1][3] in (1, 2):
            v = self.val.get(t[1][1])
            if v is not None:
                return ("rows" if t[1][3] == 1 else "columns", v)
        return ("?", show(t))

    def digest(self, t, i):
        t = plain(t)
        if t not in self.hash:
            raise Bad(i.loc, "the digest handed to the certificate code was not computed")
        return self.hash[t]

    # -- conditions ----------------------------------------------------------
    def given(self, name):
        """whether the path assumes that the option was given; None if it does not look"""
        o = self.tool.opts
        opt = o.opts.get(name)
        if opt is None:
            raise Bad(self.tool.name, "there is no option --" + name)
        for f in self.p.facts:
            f = plain(f)
            if f[0] not in ("eq0", "ne0"):
                continue
            x = f[1]
            if x[0] == "pdiff" and ("null",) in x[1:]:
                x = x[2] if x[1] == ("null",) else x[1]
                pl = o.place_of(x)
                if pl is not None and pl in opt.places():
                    return f[0] == "ne0"
                continue
            pl = o.place_of(x)
            if pl is not None and pl in opt.places():
                v = [k for q, k, _ in opt.effects if q == pl][0]
                if v[0] != "const":
                    return None
                return (f[0] == "ne0") == bool(v[1])
        return None

    def failing(self):
        return self.code == "stop" or self.code[0] == "c" and self.code[1] != 0

    def excused(self):
        """failures that are documented: a file that cannot be opened, a certificate that is malformed or wrong"""
        for f in self.p.facts:
            f = plain(f)
            if f[0] != "eq0":
                continue
            x = f[1]
            if x[0] == "pdiff" and ("null",) in x[1:]:
                x = x[2] if x[1] == ("null",) else x[1]
                if x[0] == "call" and x[1] in ("fopen", "fdopen") or x in (("ld", ("glob", "stdin")), ("ld", ("glob", "stdout"))):
                    return True
            if x[0] == "call" and x[1] in ("spasm_factorization_verify", "spasm_rank_certificate_load",
                                           "spasm_certificate_rank_verify", "argp_parse"):
                return True
        return False


class Tool:
    def __init__(self, b, name):
        self.name = name
        self.M = b.tool(name)
        self.u = pts.units(self.M, ["main"])[0]
        self.S = sym.Sym(self.u, self.M)
        self.fn = self.u.fn
        self.T = Tree(self.u, self.fn, self.S, lambda c: None, lambda t: None, limit=20000)
        self.T.stops = True
        self.opts = options.of(self.M, self.T)
        self.T.rewrite = self.same
        self.echopts = set()
        if self.opts is not None:
            for pl, f in self.opts.inits:
                if f == "spasm_echelonize_init_opts" and pl[0] == "off":
                    self.echopts |= self.addrs(pl[1])
        for i in self.fn.insts():
            if i.op == "call" and i.callee_name() == "spasm_echelonize_init_opts":
                self.echopts.add(plain(self.S.t(i.ops[0])))
        self.flows = None
        self.hasopts = bool(self.echopts) or self.opts is not None and \
            any(f == "spasm_echelonize_init_opts" for _, f in self.opts.inits)

    def same(self, c):
        """options keep their value: conditions on them do not depend on when they are read"""
        if self.opts is None:
            return c

        def f(x):
            if x[0] == "ldv":
                y = plain(x)
                pl = self.opts.place_of(y)
                if pl is not None and any(pl in o.places() for o in self.opts.opts.values()):
                    return y
            return None
        return subst(c, f)

    def addrs(self, off):
        """the addresses in main at that offset of the parsed structure"""
        out = set()
        for i in self.fn.insts():
            for o in i.ops if i.op == "call" else ():
                if o.type == "ptr":
                    t = plain(self.S.t(o))
                    if t[0] == "fld" and self.opts.off(t) == off:
                        out.add(t)
        return out

    def T_touched(self, L):
        out = set()
        for b in L.blocks:
            for i in b.insts:
                if i.op == "store":
                    out.add(plain(el_split(self.S.t(i.ops[1]))[0]))
                elif i.op == "call" and (i.callee_name() or "").startswith(("llvm.mem", "mem")):
                    out.add(plain(el_split(self.S.t(i.ops[0]))[0]))
                elif i.op == "call" and (i.callee_name() or "?") not in nest.HARMLESS | LOOK:
                    for o in i.ops:
                        if o.type == "ptr":
                            out.add(plain(self.S.t(o)))
        return out

    def paths(self):
        if self.flows is None:
            try:
                self.flows = [Flow(self, p).run() for p in self.T.top()]
            except nest.TooMany:
                raise Bad(self.name, "too many paths to follow")
        return self.flows

    # -- expectations --------------------------------------------------------
    def file(self, name, given, mode):
        if given is False:
            return "stdout" if mode == "w" else "stdin"
        return ("fopen", ("opt", (name,)), mode)

    def cases(self, f, names):
        ch = []
        for n in names:
            g = f.given(n)
            ch.append((g,) if g is not None else (False, True))
        for c in product(*ch):
            yield dict(zip(names, c))

    def delivers(self, names, want):
        """on every path that ends well exactly the results want(given options) are delivered"""
        good = 0
        for f in self.paths():
            if f.failing():
                if not f.excused():
                    raise Bad(loc(f.p), "the tool may give up although its input is fine")
                continue
            good += 1
            for g in self.cases(f, names):
                w = want(g, f)
                got = [(v, d) for v, d, _ in f.out]
                if got == w:
                    continue
                if not got:
                    raise Bad(self.name, "nothing is delivered when %s" % self.text(g))
                at_ = f.out[0][2].loc
                if len(got) != len(w):
                    raise Bad(at_, "%d results are delivered, not %d" % (len(got), len(w)))
                for (v, d), (v2, d2) in zip(got, w):
                    if v != v2:
                        raise Bad(at_, "the result is %s, not %s, when %s" % (say(v), say(v2), self.text(g)))
                    if d != d2:
                        raise Bad(at_, "the result goes to %s, not %s, when %s" % (say(d), say(d2), self.text(g)))
            for d in f.out:
                if d[1] == "stdout" and f.prints:
                    raise Bad(f.prints[0][1].loc, "something else is written among the result")
        if not good:
            raise Bad(self.name, "the tool never ends well")
        return good

    def text(self, g):
        return ", ".join("--%s is %sgiven" % (k, "" if v else "not ") for k, v in g.items()) or "run"


def inp(t, g, name="matrix"):
    return ("load", t.file(name, g[name], "r"), ("opt", ("modulus",)))


def kernel(t):
    def want(g, f):
        x = inp(t, g)
        if g["left"]:
            x = flip(x)
        return [(("kernel", ("factors", ("csr", x))), t.file("output", g["output"], "w"))]
    return t.delivers(["matrix", "left", "output"], want)


def solve(t):
    def want(g, f):
        a, b = inp(t, g), inp(t, g, "rhs")
        return [(("solution", ("factors", ("csr", a)), ("csr", b)), t.file("output", g["output"], "w"))]
    n = t.delivers(["matrix", "rhs", "output"], want)
    # rows without solution are named
    for f in t.paths():
        if f.failing():
            continue
        ok = None
        for e in f.p.events:
            if not isinstance(e, Store) and e[0] == "call" and e[1] == "spasm_gesv":
                ok, nr, seen = plain(e[2][2]), plain(fld(plain(e[2][1]), 1)), False
            if ok is not None and not isinstance(e, Store) and e[0] == "loop":
                i = t.T.counter(e[1], e[2], C(0), nr)
                if i is None:
                    for r in nest.loop_ranges(t.S, e[1]):
                        if plain(r.hi) == nr and r.step == 1 and plain(e[2].get(r.phi, C(1))) == C(0) and r.lo == C(0):
                            i = r.term
                if i is None:
                    continue
                for q in t.T.bodies(e[1]):
                    fs = [plain(x) for x in q.facts]
                    cell = ("ld", el(ok, plain(i)))
                    told = [c for c in q.calls("fprintf", "printf", "warnx") if plain(i) in [plain(a) for a in c[2]]]
                    if ("ne0", cell) in fs:
                        if told:
                            raise Bad(told[0][3].loc, "a row that has a solution is reported as having none")
                    elif ("eq0", cell) in fs:
                        if not told:
                            raise Bad(loc(q), "a row without solution is not reported")
                        seen = True
        if ok is None or not seen:
            raise Bad(t.name, "rows without solution are not reported")
    return n


def echelonize(t):
    def want(g, f):
        x = ("factors", ("csr", ("load", "stdin", ("opt", ("modulus",)))))
        return [(("rref" if g["rref"] else "U", x), "stdout")]
    return t.delivers(["rref"], want)


def transpose(t):
    def want(g, f):
        return [(("csr", flip(("load", "stdin", ("num", 42013)))), "stdout")]
    return t.delivers([], want)


def rank(t):
    names = ["matrix", "certificate", "no-transpose", "output"]

    def want(g, f):
        x = inp(t, g)
        if not g["certificate"]:
            return []
        a = ("csr", x)
        c = ("certificate", a, x, ("factors", a))
        return [(c, ("fopen", ("opt", ("output",)), "w"))] if g["output"] else []
    n = t.delivers(names, want)
    for f in t.paths():
        if f.failing():
            continue
        hs = [h for h, v in f.val.items() if v[0] == "factors"]
        for g in t.cases(f, names):
            x = inp(t, g)
            allowed = [("factors", ("csr", x))]
            if not g["no-transpose"] and not g["certificate"]:
                allowed.append(("factors", ("csr", flip(x))))
            bad = [f.val[h] for h in hs if f.val[h] not in allowed]
            if bad or not hs:
                raise Bad(hs[0][2].loc if hs else t.name, "%s are computed when %s" % (
                    " and ".join(map(say, bad)) or "no factors", t.text(g)))
            if g["certificate"] and not (f.verdict and f.verdict[1][3][0] == "certificate"):
                raise Bad(t.name, "the certificate is not checked before it is delivered")
        told = False
        for nm, args, i in getattr(f, "shown", []):
            for h in hs:
                if fld(h, R, LU) in args or fld(fld(h, U, LU), N) in args:
                    told = True
        if not told:
            raise Bad(t.name, "the rank is not printed")
    return n


def dm(t):
    n = 0
    o = t.opts
    ways = {}
    for nm, letter in (("permuted", "p"), ("verbose", "v"), ("image", "i")):
        opt = o.opts.get(nm)
        if opt is None:
            raise Bad(t.name, "there is no option --" + nm)
        for pl, k, i in opt.effects:
            if pl[0] == "phi" and k[0] == "const":
                ways[nm] = (pl[1], k[1])
    if set(ways) != {"permuted", "verbose", "image"} or len({w[0] for w in ways.values()}) != 1 \
            or len({w[1] for w in ways.values()}) != 3:
        raise Bad(t.name, "the output modes are not told apart")
    ph = ways["permuted"][0]
    if o.default(("phi", ph)) != ("const", ways["permuted"][1]):
        raise Bad(t.name, "the permuted matrix is not the default output")
    a = ("csr", ("load", "stdin", ("num", 42013)))
    d = ("dm", a)
    b = ("permuted", a, ("row order", d), ("inverse", ("column order", d), ("columns", a)), "1")
    for f in t.paths():
        if f.failing():
            raise Bad(loc(f.p), "the tool may give up although its input is fine")
        for nm, (x, k) in ways.items():
            if any(options.holds(plain(c), k, ("phi", x)) is False for c in f.p.facts):
                continue
            got = [(v, e) for v, e, _ in f.out]
            w = {"permuted": [(b, "stdout")], "verbose": [], "image": [(("picture", b, ("num", 3), d), "stdout")]}[nm]
            if got != w:
                raise Bad(f.out[0][2].loc if f.out else t.name, "with --%s the result is %s, not %s" % (
                    nm, ", ".join(say(v) for v, _ in got) or "nothing", ", ".join(say(v) for v, _ in w) or "a description"))
            if got and f.prints:
                raise Bad(f.prints[0][1].loc, "something else is written among the result")
            if nm == "verbose":
                H = [h for h, v in f.val.items() if v == d]
                rr, cc = (lambda j: at(("fld", H[0], "spasm_dm", 5), C(j))), (lambda j: at(("fld", H[0], "spasm_dm", 6), C(j)))
                sr = add(rr(2), add(cc(4), cc(3), -1))
                pr = [x for x in getattr(f, "shown", []) if x[0] == "printf"]
                if not any(sr in x[1] for x in pr):
                    raise Bad(t.name, "the structural rank is not printed")
            n += 1
    return n


def bitmap(t):
    def want(g, f):
        return [(("picture", ("csr", ("load", "stdin", ("num", -1))), ("opt", ("gray",)), "none"), "stdout")]
    o = t.opts
    n = 0
    for f in t.paths():
        if f.failing():
            facts = [plain(x) for x in f.p.facts]
            if not facts or not all(any(o.place_of(y) is not None for y in walk(x)) or x[0] not in ("eq0", "ne0", "lt0")
                                    for x in facts):
                raise Bad(loc(f.p), "the tool may give up although its input is fine")
            continue
        n += 1
        got = [(v, e) for v, e, _ in f.out]
        if got != want({}, f):
            raise Bad(f.out[0][2].loc if f.out else t.name, "the result is %s, not %s" % (
                ", ".join(say(v) for v, _ in got) or "nothing", say(want({}, f)[0][0])))
        if f.prints:
            raise Bad(f.prints[0][1].loc, "something else is written among the result")
    return n


def check_cert(t):
    names = ["matrix", "certificate"]
    n = 0
    for f in t.paths():
        if f.code == "stop":
            if not f.excused():
                raise Bad(loc(f.p), "the tool may give up although its input is fine")
            continue
        if f.verdict is None:
            if f.code == C(0):
                raise Bad(t.name, "the tool may report success without checking anything")
            if not f.excused():
                raise Bad(loc(f.p), "a certificate may be refused without being checked")
            continue
        h, v = f.verdict
        for g in t.cases(f, names):
            x = inp(t, g)
            w = ("verdict", ("csr", x), x, ("certificate of", t.file("certificate", g["certificate"], "r")))
            if v != w:
                raise Bad(h[2].loc, "what is checked is %s, not %s" % (say(v), say(w)))
        loads = [x for x in f.ran]
        facts = [plain(x) for x in f.p.facts]
        for x in loads:
            if ("ne0", x) not in facts:
                raise Bad(h[2].loc, "a malformed certificate may be checked")
        yes = ("ne0", h) in facts
        no = ("eq0", h) in facts
        if f.code[0] == "c":
            if not yes and not no:
                raise Bad(h[2].loc, "the exit status does not depend on the verdict")
            if yes != (f.code == C(0)):
                raise Bad(h[2].loc, "a %s certificate makes the tool exit with status %s" % (
                    "correct" if yes else "wrong", show(f.code)))
        elif f.code != add(C(1), h, -1) and f.code != ("eq0", h):
            raise Bad(h[2].loc, "the exit status is %s, not the verdict" % show(f.code))
        n += 1
    if not n:
        raise Bad(t.name, "nothing is ever checked")
    return n


# ---------------------------------------------------------------------------
class Rewriter:
    """tools that change the entry list in place"""

    def __init__(self, t):
        self.t, self.T = t, t.T
        ps = [p for p in t.T.top()]
        self.ps = [p for p in ps if p.end is None or p.end.term.op != "unreachable"
                   or [c for c in p.calls("exit") if c[2][0] == C(0)]]
        if not self.ps:
            raise Bad(t.name, "the tool never ends well")
        for p in ps:
            if p not in self.ps:
                raise Bad(loc(p), "the tool may give up although its input is fine")

    def start(self, p):
        ld = p.calls("spasm_triplet_load")
        if len(ld) != 1:
            raise Bad(self.t.name, "the matrix is not read exactly once")
        a = [plain(x) for x in ld[0][2]]
        if a[0] != ("ld", ("glob", "stdin")):
            raise Bad(ld[0][3].loc, "the matrix is not read from the standard input")
        sv = p.calls("spasm_triplet_save", "spasm_csr_save")
        A = ("call", "spasm_triplet_load", ld[0][3])
        if len(sv) != 1 or plain(sv[0][2][0]) != A or plain(sv[0][2][1]) != ("ld", ("glob", "stdout")):
            raise Bad(sv[0][3].loc if sv else self.t.name, "the matrix is not written once to the standard output")
        for c in p.calls("printf", "puts", "putchar"):
            raise Bad(c[3].loc, "something else is written among the result")
        rest = [e for e in p.events if not isinstance(e, Store) and e[0] == "call" and e[1] not in nest.HARMLESS | LOOK | FREE
                | {"spasm_triplet_load", "spasm_triplet_save", "spasm_csr_save", "exit"} and not e[1].startswith("llvm.mem")]
        for e in rest:
            if any(A in walk(plain(a)) for a in e[2]):
                raise Bad(e[3].loc, "%s may modify the matrix" % e[1])
        fr = [e for e in p.calls(*FREE) if plain(e[2][0]) == A]
        if fr and p.events.index(fr[0]) < p.events.index(sv[0]):
            raise Bad(fr[0][3].loc, "the matrix is released before it is written")
        self.A, self.save, self.load = A, sv[0], ld[0]
        return A

    def F(self, k):
        return fld(self.A, k, TRI)

    def over(self, e, n):
        """counter of a loop running over 0 .. n-1"""
        for r in nest.loop_ranges(self.t.S, e[1]):
            if [o for o in r.others if o in self.T.exits(e[1])]:
                continue
            st = plain(e[2].get(r.phi, ("?",)))
            if r.step == 1 and st == C(0) and plain(r.lo) == C(0) and plain(r.hi) == n:
                return plain(r.term)
            if r.step == -1 and plain(r.lo) == C(0) and add(st, C(1)) == n:
                return plain(r.term)
            if r.step == -1 and plain(r.lo) == C(1) and st == n:
                return add(plain(r.term), C(-1))
        return None

    def stores(self, q):
        return {plain(s.addr): (plain(s.val), s) for s in q.stores()}


def vertical_swap(t):
    w = Rewriter(t)
    for p in w.ps:
        w.start(p)
        Aj, nz, m = w.F(5), w.F(1), w.F(3)
        done = False
        for e in p.events:
            if e is w.save and not done:
                raise Bad(e[3].loc, "the matrix is written before it is flipped")
            if isinstance(e, Store) and w.A in walk(plain(e.addr)):
                raise Bad(e.inst.loc, "unexpected write to %s" % show(e.addr))
            if isinstance(e, Store) or e[0] != "loop":
                continue
            k = w.over(e, nz)
            hit = False
            for q in w.T.bodies(e[1]):
                for a, (v, s) in w.stores(q).items():
                    if w.A not in walk(a):
                        continue
                    hit = True
                    if k is None or a != el(Aj, k):
                        raise Bad(s.inst.loc, "%s is modified: not the column of every entry, once each" % show(a))
                    if v != add(add(m, C(-1)), at(Aj, k), -1):
                        raise Bad(s.inst.loc, "column j becomes %s, not m - 1 - j" % show(v))
                if hit and el(Aj, k) not in w.stores(q):
                    raise Bad(loc(q), "some entries are not moved")
            if hit:
                if done:
                    raise Bad(loc(e[1]), "the matrix is flipped twice")
                done = True
        if not done:
            raise Bad(t.name, "the matrix is not flipped")
    return len(w.ps)


def stack(t):
    w = Rewriter(t)
    for p in w.ps:
        w.start(p)
        nz = w.F(1)
        new = {}
        sides = [(4, w.F(2), 2, "row"), (5, w.F(3), 3, "column")]
        state = {k: {} for k, _, _, _ in sides}
        dims = {}
        marks = None
        for e in p.events:
            if isinstance(e, Store):
                a = plain(e.addr)
                for k, n, f, nm in sides:
                    if a == w.F(k)[1] or a == ("fld", w.A, TRI, f):
                        if a != ("fld", w.A, TRI, f):
                            raise Bad(e.inst.loc, "unexpected write to %s" % show(a))
                        dims[f] = (plain(e.val), e)
                continue
            if e[0] == "call":
                h = ("call", e[1], e[3])
                if e[1] in ("spasm_calloc", "calloc"):
                    new[h] = True
                elif e[1] in ("llvm.memset.p0.i64", "memset"):
                    new.setdefault("set", {})[plain(e[2][0])] = (plain(e[2][1]), plain(e[2][2]))
                if e is w.save:
                    for k, n, f, nm in sides:
                        if state[k].get("did") != "renumbered":
                            raise Bad(e[3].loc, "the matrix is written before its %ss are renumbered" % nm)
                        if f not in dims or dims[f][0] != state[k]["count"]:
                            raise Bad(dims[f][1].inst.loc if f in dims else e[3].loc,
                                      "the number of %ss written is not the number of non-empty ones" % nm)
                continue
            if e[0] != "loop":
                continue
            step(w, t, e, sides, state, nz, new, dims)
    return len(w.ps)


def step(w, t, e, sides, state, nz, new, dims):
    """role of one loop of stack: clear, mark, number or rewrite, for rows, columns or both"""
    L = e[1]
    bodies = w.T.bodies(L)
    for k, n, f, nm in sides:
        Ak = w.F(k)
        st = state[k]
        kk = w.over(e, nz)
        ii = w.over(e, n)
        acts = set()
        for q in bodies:
            ws = w.stores(q)
            for a, (v, s) in ws.items():
                b, idx = el_split(a)
                if kk is not None and b != Ak and idx == at(Ak, kk):
                    acts.add(("mark", b))
                    if v[0] != "c" or v[1] == 0:
                        raise Bad(s.inst.loc, "non-empty %ss are marked with %s" % (nm, show(v)))
                elif b == Ak:
                    acts.add(("rewrite", b))
                elif ii is not None and idx == ii and v == C(0) and (b not in [x.get("mark") for x in state.values()]
                                                                    or st.get("mark") != b):
                    acts.add(("clear", b))
                elif ii is not None and idx == ii and st.get("mark") == b:
                    acts.add(("number", b))
        for act, b in sorted(acts, key=str):
            if act == "clear":
                if all(plain(el(b, ii)) in w.stores(q) for q in bodies):
                    st.setdefault("cleared", set()).add(b)
            elif act == "mark":
                if b not in st.get("cleared", set()) and b not in new and not (
                        new.get("set", {}).get(b) == (C(0), sym.mul(C(4), n))):
                    raise Bad(loc(L), "the table of non-empty %ss is not cleared first" % nm)
                if not all(el(b, at(Ak, kk)) in w.stores(q) for q in bodies):
                    raise Bad(loc(L), "some non-empty %ss are not marked" % nm)
                st["mark"] = b
                st["did"] = "marked"
            elif act == "number":
                if st.get("did") != "marked":
                    raise Bad(loc(L), "%ss are numbered before they are marked" % nm)
                cnt = None
                for q in bodies:
                    ws = w.stores(q)
                    fs = [plain(x) for x in q.facts]
                    cell = at(b, ii)
                    on = ("ne0", cell) in fs or implied(("lt0", add(C(0), cell, -1)), fs)
                    off = ("eq0", cell) in fs or implied(nonneg(add(C(0), cell, -1)), fs)
                    up = [ph for ph, v in q.next.items() if plain(v) == add(("phi", ph), C(1)) and plain(e[2][ph]) == C(0)]
                    if on:
                        v = ws.get(el(b, ii))
                        if v is None or v[0][0] != "phi" or v[0][1] not in up:
                            raise Bad(v[1].inst.loc if v else loc(q), "non-empty %ss do not get consecutive numbers" % nm)
                        if cnt not in (None, v[0][1]):
                            raise Bad(loc(q), "%ss are numbered by two counters" % nm)
                        cnt = v[0][1]
                    elif not off:
                        raise Bad(loc(q), "empty %ss are numbered too" % nm)
                for q in bodies:
                    fs = [plain(x) for x in q.facts]
                    cell = at(b, ii)
                    on = ("ne0", cell) in fs or implied(("lt0", add(C(0), cell, -1)), fs)
                    if not on and cnt is not None and plain(q.next.get(cnt, ("phi", cnt))) != ("phi", cnt):
                        raise Bad(loc(q), "empty %ss take a number" % nm)
                if cnt is None:
                    raise Bad(loc(L), "%ss are not numbered" % nm)
                st["did"], st["count"] = "numbered", ("phi", cnt)
            elif act == "rewrite":
                if st.get("did") != "numbered":
                    raise Bad(loc(L), "%ss of entries are changed %s" % (nm, "twice" if st.get("did") == "renumbered" else
                                                                         "before the new numbers are known"))
                for q in bodies:
                    ws = w.stores(q)
                    mine = [a for a in ws if el_split(a)[0] == Ak]
                    if kk is None or mine != [el(Ak, kk)]:
                        raise Bad(loc(q), "the %s of every entry is not changed exactly once" % nm)
                    if ws[mine[0]][0] != at(st["mark"], at(Ak, kk)):
                        raise Bad(ws[mine[0]][1].inst.loc, "the %s of an entry becomes %s" % (nm, show(ws[mine[0]][0])))
                st["did"] = "renumbered"
    for q in bodies:
        for a in w.stores(q):
            if w.A in walk(a) and el_split(a)[0] not in [w.F(k) for k, _, _, _ in sides] and w.A in walk(el_split(a)[0]):
                raise Bad(loc(q), "unexpected write to %s" % show(a))


TOOLS = {"kernel": kernel, "solve": solve, "echelonize": echelonize, "transpose": transpose, "rank": rank, "dm": dm,
         "bitmap": bitmap, "check_cert": check_cert, "vertical_swap": vertical_swap, "stack": stack}


def check(b, rep):
    rep.expl = ("Every path through main of every tool is executed symbolically (the parsing of options included): each object "
                "is described by the calls that made it, and what is saved or printed is compared with the documented function "
                "of the input and the options.")
    names = b.tool_names()
    for n in TOOLS:
        rep.rule(n, "what %s delivers is the documented function of its input, on every path" % n)
    for n, f in TOOLS.items():
        if n not in names:
            raise Broken("tool %s is gone" % n)
        try:
            k = f(Tool(b, n))
            for _ in range(k):
                rep.ok(n, "tools/%s.c" % n, "paths that end well")
        except Bad as e:
            rep.bad(n, str(e.where), n, e.msg)
    for n in TOOLS:
        rep.need(n, 1)
    rep.assumptions.append("the functions of the library do what the other properties say")
    rep.assumptions.append("argp and getopt_long behave as documented")


if __name__ == "__main__":
    sys.exit(run("P34", check))
