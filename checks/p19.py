"""P19: every declared command-line option takes effect."""
from common import *
import pts
import cfg
import esp
import sym
from sym import walk, C, el_split

INTS = {"atoi", "atol", "atoll", "strtol", "strtoll", "strtoul", "strtoull", "strtoimax", "strtoumax"}
FLOATS = {"atof", "strtod", "strtof", "strtold"}

# option -> what it must set.  ('opts', field, kind) ; kind: 0/1 flag value, 'int', 'float'
OPTS = {
    "no-greedy-pivot-search": (0, 0), "no-low-rank-mode": (1, 0), "no-dense-mode": (2, 0), "no-GPLU": (3, 0),
    "min-pivot-proportion": (6, "float"), "max-iterations": (7, "int"), "dense-threshold": (8, "float"),
    "sparsity-threshold": (8, "float"), "dense-block-size": (9, "int"), "min-rank-ratio": (10, "float"),
    "max-aspect-ratio": (11, "float"), "low-rank-start-weight": (12, "num"),
}
# tool -> option -> observable effect in the rest of the program
EFFECT = {
    "rank": {"no-transpose": ("never", "spasm_triplet_transpose"), "certificate": ("always", "spasm_certificate_rank_create"),
             "output": ("file", "w", "spasm_rank_certificate_save", 1)},
    "kernel": {"left": ("always", "spasm_triplet_transpose"), "output": ("file", "w", "spasm_csr_save", 1)},
    "solve": {"rhs": ("file", "r", "spasm_triplet_load", 0), "output": ("file", "w", "spasm_csr_save", 1)},
    "check_cert": {"certificate": ("file", "r", "spasm_rank_certificate_load", 0)},
    "echelonize": {"modulus": ("flow", "spasm_triplet_load", 1), "rref": ("always", "spasm_rref")},
    "dm": {"permuted": ("always", "spasm_csr_save"), "image": ("always", "spasm_save_pnm"),
           "verbose": ("print", "structural rank")},
    "bitmap": {"gray": ("value", "spasm_save_pnm", 4, 2), "width": ("direct", "spasm_save_pnm", 2),
               "height": ("direct", "spasm_save_pnm", 3), "mpixels": ("reach", "spasm_save_pnm", 2)},
    "*": {"matrix": ("file", "r", "spasm_triplet_load", 0), "modulus": ("flow", "spasm_triplet_load", 1)},
}


def text(v):
    if v.kind == "global" and v.init is not None and v.init.kind == "str":
        s = v.init.val
        return (s.decode("latin1") if isinstance(s, bytes) else s).rstrip("\0")
    return None


def aggs(g):
    if g is None or g.init is None or g.init.kind not in ("agg",):
        return []
    return [o for o in g.init.ops if o.kind == "agg"]


class Opt:
    def __init__(self, name, key, takes, where):
        self.name, self.key, self.takes, self.where = name, key, takes, where


class Parse(esp.Client):
    """effects of an argp parser on one key"""

    def __init__(self, S, K):
        self.S, self.K = S, K
        self.ends = []

    def init(self, e, env):
        return [frozenset()]

    def arg(self, v):
        if v.idx == 0:
            return esp.iv(self.K, self.K)
        return None

    def inst(self, e, q, i, env):
        if i.op == "store":
            a = self.S.t(i.ops[1])
            if a[0] != "al":
                v = self.S.t(i.ops[0])
                x = e.val(i.ops[0], env)
                if x and x[0] == "i" and x[1] is not None and x[1] == x[2]:
                    v = C(x[1])
                return [(frozenset([y for y in q if y[0] != a]) | {(a, v, i)}, env)]
        elif i.op == "call" and i.callee_name() == "spasm_echelonize_init_opts":
            return [(q | {(self.S.t(i.ops[0]), ("defaults",), i)}, env)]
        return [(q, env)]

    def ret(self, e, q, t, env):
        v = e.val(t.ops[0], env) if t.ops else None
        self.ends.append((q, v))


def parse_key(u, fn, S, K):
    c = Parse(S, K)
    e = esp.Esp(u, fn, c, max_states=200).run()
    if e.overflow:
        raise Broken("state explosion in " + fn.name)
    return c.ends


def uses_arg(t, argterms):
    for x in walk(t):
        if x in argterms:
            return True
        if isinstance(x, tuple) and x and x[0] == "call" and isinstance(x[-1], object) and len(x) == 3:
            for o in x[2].ops:
                pass
    return False


class Val:
    """how a setting is computed from the option's argument"""

    def __init__(self, S, v, argterms):
        self.S, self.argterms = S, argterms
        self.kind, self.conv, self.narrow = "other", None, False
        self.classify(v)

    def classify(self, v):
        S = self.S
        t = S.t(v)
        if t in self.argterms:
            self.kind = "string"
            return
        if t[0] == "c":
            self.kind = "const"
            self.conv = t[1]
            return
        if t[0] == "null":
            self.kind = "null"
            return
        x = v
        guard = 0
        while x.kind == "inst" and guard < 30:
            guard += 1
            if x.op in ("trunc",):
                self.narrow = self.narrow or int(x.type[1:]) < 64
                x = x.ops[0]
            elif x.op in ("sext", "zext", "freeze", "sitofp", "uitofp", "fptosi", "fptrunc", "fpext", "fptoui"):
                x = x.ops[0]
            elif x.op == "load":
                r = S.u.resolve(x)
                if r is x:
                    break
                x = r
            else:
                break
        if x.kind == "inst" and x.op == "call":
            n = x.callee_name()
            if n in INTS | FLOATS and S.t(x.ops[0]) in self.argterms:
                self.kind = "int" if n in INTS else "float"
                self.conv = n
                if n == "atoi":
                    self.narrow = True


def has_arg_term(S, v, argterms, depth=0):
    """does the value depend on the option's argument?"""
    t = S.t(v)
    for x in walk(t):
        if x in argterms:
            return True
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "call":
            if any(S.t(o) in argterms for o in x[2].ops):
                return True
    return False


def argp_options(g):
    out = []
    for a in aggs(g):
        n = text(a.ops[0])
        if n is None:
            continue
        out.append(Opt(n, a.ops[1].val, a.ops[2].kind != "null", g.name))
    return out


def want_opts(name, field, val, rep, where, key):
    f, kind = OPTS[name]
    if field != f:
        rep.bad("right-setting", where, key, "option --%s sets field %s of the options instead of %s" % (name, field, f))
        return
    if isinstance(kind, int):
        ok = val.kind == "const" and val.conv == kind
    elif kind == "int":
        ok = val.kind == "int"
    elif kind == "num":
        ok = val.kind in ("int", "float")
    else:
        ok = val.kind == "float"
    if ok:
        rep.ok("right-setting", where, "--%s: options field %d" % (name, f))
    else:
        rep.bad("right-setting", where, key, "option --%s stores the wrong kind of value (%s %s)" % (name, val.kind, val.conv))


# ------------------------------------------------------------------ argp tools
def argp_tool(b, rep, tool, M, u, fn):
    S0 = sym.Sym(u, M)
    call = next(fn.calls("argp_parse"))
    g = M.globals.get(S0.t(call.ops[0])[1])
    parsers = []        # (fn, options, child index or None)

    def collect(g, path):
        if g is None or g.init is None or g.init.kind != "agg":
            raise Broken("argp structure of %s not understood" % tool)
        o, p, ch = g.init.ops[0], g.init.ops[1], g.init.ops[4]
        parsers.append((p, argp_options(o) if o.kind == "global" else [], path))
        if ch.kind == "global":
            for k, c in enumerate(aggs(ch)):
                if c.ops[0].kind == "global":
                    collect(c.ops[0], path + (k,))
    collect(g, ())
    argsal = S0.t(call.ops[5])
    seen_names = {}
    state = {}
    for pf, opts, path in parsers:
        if pf.kind != "func":
            raise Broken("parser of %s is not a function" % tool)
        if len({o.key for o in opts}) != len(opts):
            rep.bad("distinct-keys", tool, "dup", "two options of one table share a key")
        else:
            rep.ok("distinct-keys", tool, "%d options" % len(opts))
        pu = pts.Unit(pf).solve()
        S = sym.Sym(pu, M)
        argt = {("arg", 1)}
        base = None
        for o in opts:
            key = "%s:%s" % (tool, o.name)
            seen_names[o.name] = o
            ends = parse_key(pu, pf, S, o.key)
            if not ends:
                rep.bad("handled", pf.name, key, "option --%s never returns from the parser" % o.name)
                continue
            for q, rv in ends:
                if not (rv and rv[0] == "i" and rv[1] == 0 and rv[2] == 0):
                    rep.bad("handled", pf.name, key, "option --%s is declared but the parser rejects it" % o.name)
                    break
                if len(q) != 1:
                    rep.bad("right-setting", pf.name, key, "option --%s sets %d settings instead of one" % (o.name, len(q)))
                    break
                (a, v, st), = q
                rep.ok("handled", st.loc, key)
                val = Val(S, st.ops[0], argt)
                if v[0] == "c":
                    val.kind, val.conv = "const", v[1]
                uses = has_arg_term(S, st.ops[0], argt)
                if uses != o.takes:
                    rep.bad("argument", st.loc, key, "option --%s %s its argument" % (
                        o.name, "ignores" if o.takes else "is declared without argument but uses"))
                else:
                    rep.ok("argument", st.loc, key)
                if a[0] != "fld":
                    rep.bad("right-setting", st.loc, key, "option --%s does not set a field" % o.name)
                    continue
                struct, k = a[2].replace("struct.", ""), a[3]
                state[o.name] = (struct, k, val, path, st, v)
                if struct == "echelonize_opts":
                    if o.name in OPTS:
                        want_opts(o.name, k, val, rep, st.loc, key)
                elif o.name == "modulus":
                    if val.kind != "int" or val.narrow:
                        rep.bad("right-setting", st.loc, key, "the modulus is not read as a 64-bit integer")
                    else:
                        rep.ok("right-setting", st.loc, key)
                elif not o.takes:
                    want = 0 if o.name.startswith("no-") else 1
                    if v != C(want):
                        rep.bad("right-setting", st.loc, key, "option --%s has the wrong polarity" % o.name)
                    else:
                        rep.ok("right-setting", st.loc, key)
                elif val.kind not in ("string", "int", "float"):
                    rep.bad("right-setting", st.loc, key, "the argument of --%s is not stored" % o.name)
                else:
                    rep.ok("right-setting", st.loc, key)
        # two options on one setting
        tg = {}
        for o in opts:
            if o.name in state:
                tg.setdefault(state[o.name][:2], []).append(o.name)
        for k, l in tg.items():
            if len(l) > 1:
                rep.bad("right-setting", pf.name, "%s:%s" % (tool, "+".join(l)), "options %s set the same setting" % l)
        # defaults
        dflt = {}
        kids = {}
        for q, rv in parse_key(pu, pf, S, 0x1000003):
            for a, v, st in q:
                if a[0] == "fld":
                    dflt[(a[2].replace("struct.", ""), a[3])] = v
                elif v == ("defaults",):
                    dflt["opts"] = v
                elif el_split(a)[0][0] == "ld" and el_split(a)[0][1][0] == "fld" and el_split(a)[0][1][3] == 8:
                    kids[el_split(a)[1]] = v
        for o in opts:
            if o.name not in state:
                continue
            s, k, val, _, st, v = state[o.name]
            key = "%s:%s" % (tool, o.name)
            d = dflt.get((s, k)) or (dflt.get("opts") if s == "echelonize_opts" else None)
            if d is None:
                rep.bad("default", st.loc, key, "the setting of --%s has no default" % o.name)
            elif not o.takes and d == v:
                rep.bad("default", st.loc, key, "option --%s sets the value that is already the default" % o.name)
            else:
                rep.ok("default", st.loc, key)
            state[o.name] = state[o.name] + (d,)
        # children
        for (pf2, o2, path2) in parsers:
            if len(path2) == len(path) + 1 and path2[:len(path)] == path:
                k = kids.get(C(path2[-1]))
                ty = None
                if k is not None and k[0] == "fld":
                    st_ = M.structs.get("%struct." + k[2].replace("struct.", ""))
                    ty = st_[k[3]] if st_ else None
                want = child_type(pf2, M)
                if ty is None or want is None or ty.replace("%struct.", "") != want:
                    rep.bad("children", pf.name, "%s:child%d" % (tool, path2[-1]),
                            "child parser %s is not given its own settings" % pf2.name)
                else:
                    rep.ok("children", pf.name, "%s -> %s" % (pf2.name, want))
        # errors
        for what, K in (("unknown", 0x7654),) + ((("stray", 0),) if path == () else ()):
            if any(o.key == K for o in opts):
                continue
            bad = [1 for q, rv in parse_key(pu, pf, S, K) if not (rv and rv[0] == "i" and (
                rv[1] is not None and rv[1] > 0 or rv[2] is not None and rv[2] < 0))]
            if bad:
                rep.bad("usage-error", pf.name, "%s:%s" % (tool, what), "%s silently accepts an %s" % (
                    pf.name, "unknown option" if what == "unknown" else "argument that is not an option"))
            else:
                rep.ok("usage-error", pf.name, "%s: %s" % (tool, what))
    # --- effects in main
    exp = dict(EFFECT["*"])
    exp.update(EFFECT.get(tool, {}))
    fields = {}
    for n, s in state.items():
        fields.setdefault((s[0], s[1]), n)

    def cellvals(setting):
        vals = {}
        for n, s in state.items():
            d = s[6] if len(s) > 6 else None
            v = s[5] if n == setting else d
            if v is not None and v[0] == "c":
                vals[(s[0], s[1])] = esp.iv(v[1], v[1])
            elif v is not None and v[0] == "null":
                vals[(s[0], s[1])] = ("p", frozenset(["null"]))
            elif n == setting and s[2].kind == "string":
                vals[(s[0], s[1])] = ("p", frozenset(["argument"]))
        return vals
    for o in exp:
        if o not in state:
            continue
        key = "%s:%s" % (tool, o)
        e = exp[o]
        s = state[o]
        if e[0] in ("always", "never"):
            flag_effect(rep, u, fn, S0, argsal, cellvals(o), cellvals(None), e, key, o)
        elif e[0] == "file":
            file_effect(rep, u, fn, S0, argsal, s, e, key, o, M, {k: v for k, v in cellvals(o).items() if k == s[:2]})
        elif e[0] == "flow":
            ks = list(fn.calls(e[1]))
            ok = bool(ks) and all(of_args(S0.t(c.ops[e[2]]), argsal, s, M) for c in ks)
            verdict(rep, ok, fn, key, "the value of --%s does not reach %s" % (o, e[1]))
    if any(s[0] == "echelonize_opts" for s in state.values()):
        opts_reach(rep, fn, S0, M, tool)
    return len(state)


def is_setting(a, argsal, s, M):
    """is a the address of setting s = (struct, field, ...) of the program's settings?"""
    if a != argsal and not any(x == argsal for x in walk(a)):
        return False
    if a[0] != "fld":
        return False
    if a[2] == s[0] and a[3] == s[1]:
        return True
    st = M.structs.get("%struct." + a[2])
    # the first field of a nested structure is at the address of the structure
    return s[1] == 0 and bool(st) and a[3] < len(st) and st[a[3]] == "%struct." + s[0]


def of_args(t, argsal, s, M):
    return t[0] == "ld" and is_setting(t[1], argsal, s, M)


def verdict(rep, ok, fn, key, msg):
    if ok:
        rep.ok("takes-effect", fn.name, key)
    else:
        rep.bad("takes-effect", fn.name, key, msg)


def child_type(pf, M):
    """struct type the parser works on: the type of the fields it sets through state->input"""
    pu = pts.Unit(pf).solve()
    S = sym.Sym(pu, M)
    for i in pf.insts():
        if i.op == "call" and i.callee_name() == "spasm_echelonize_init_opts":
            return "echelonize_opts"
    for i in pf.insts():
        if i.op == "gep" and i.srctype.startswith("%struct.") and "argp_state" not in i.srctype:
            return i.srctype.replace("%struct.", "")
    return None


class Calls(esp.Client):
    def __init__(self, S, argsal, vals, names, prints=()):
        self.S, self.argsal, self.vals, self.names, self.prints = S, argsal, vals, names, prints
        self.ends = []

    def init(self, e, env):
        return [frozenset()]

    def key(self, q, env):
        out = []
        for k, (x, links) in env.m.items():
            if x and x[0] == "i" and x[1] is not None and x[1] == x[2]:
                out.append((str(k), x[1]))
        return tuple(sorted(out))

    def inst(self, e, q, i, env):
        if i.op != "call":
            return [(q, env)]
        n = i.callee_name()
        if n == "argp_parse":
            for x in e.fn.insts():
                if x.op == "load":
                    t = self.S.t(x.ops[0])
                    for s, v in self.vals.items():
                        if is_setting(t, self.argsal, s, self.S.M):
                            c = e.cell(x.ops[0])
                            if c is not None:
                                env.m[c] = (v, frozenset())
        if n in self.names:
            return [(q | {n}, env)]
        if n == "exit" and i.ops and e.val(i.ops[0], env) == esp.iv(0, 0):
            self.ends.append(q)
        return [(q, env)]

    def ret(self, e, q, t, env):
        self.ends.append(q)


def flag_effect(rep, u, fn, S, argsal, on, off, e, key, o):
    name = e[1]
    res = []
    for vals in (on, off):
        c = Calls(S, argsal, vals, {name})
        esp.Esp(u, fn, c, max_states=200).run()
        res.append(c.ends)
    w, wo = res
    if e[0] == "always":
        ok = w and all(name in q for q in w) and not any(name in q for q in wo)
    else:
        ok = w and not any(name in q for q in w) and any(name in q for q in wo)
    verdict(rep, ok, fn, key, "option --%s does not decide whether %s is called" % (o, name))


def direct(S, v, seen=None):
    """values v may be a plain copy of"""
    seen = set() if seen is None else seen
    if v in seen:
        return seen
    seen.add(v)
    if v.kind != "inst":
        return seen
    if v.op in ("phi",):
        for x, _ in v.incoming:
            direct(S, x, seen)
    elif v.op == "select":
        for x in v.ops[1:]:
            direct(S, x, seen)
    elif v.op in ("sext", "zext", "trunc", "freeze", "bitcast"):
        direct(S, v.ops[0], seen)
    elif v.op == "call" and (v.callee_name() or "").startswith(("llvm.smin", "llvm.smax", "spasm_min", "spasm_max")):
        for x in v.ops[:2]:
            direct(S, x, seen)
    elif v.op == "load":
        r = S.u.resolve(v)
        if r is not v:
            direct(S, r, seen)
        else:
            t = S.t(v.ops[0])
            if t[0] == "al":
                for st in S.u.stores_to(t[1]) or ():
                    direct(S, st.ops[0], seen)
    return seen


def depends(S, v):
    """backward slice through data"""
    seen, st = set(), [v]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.kind == "inst":
            st.extend(x.ops)
            if x.op == "phi":
                st.extend(a for a, _ in x.incoming)
    return seen


class Opens(Calls):
    """does every complete run open the given file?"""

    def __init__(self, S, argsal, vals, sites):
        Calls.__init__(self, S, argsal, vals, set())
        self.sites = sites

    def inst(self, e, q, i, env):
        if i in self.sites:
            return [(q | {"open"}, env)]
        return Calls.inst(self, e, q, i, env)


def file_effect(rep, u, fn, S, argsal, s, e, key, o, M, vals):
    _, mode, sink, pos = e
    opens = [c for c in fn.calls("fopen") if of_args(S.t(c.ops[0]), argsal, s, M)]
    ok = False
    for c in opens:
        m = text(c.ops[1])
        if m is None or m[0] != mode:
            continue
        for k in fn.calls(sink):
            if c in direct(S, k.ops[pos]):
                ok = True
    if ok:
        c = Opens(S, argsal, vals, set(opens))
        esp.Esp(u, fn, c, max_states=200).run()
        # a sink may itself be skipped (no certificate asked for); reading the input may not
        if mode == "r" and not (c.ends and all("open" in q for q in c.ends)):
            ok = False
    verdict(rep, ok, fn, key, "the file named by --%s is not what %s works on" % (o, sink))


def opts_reach(rep, fn, S, M, tool):
    calls = list(fn.calls("spasm_echelonize"))
    for c in calls:
        t = S.t(c.ops[1])
        ok = False
        if t[0] == "fld":
            st = M.structs.get("%struct." + t[2].replace("struct.", ""))
            ok = bool(st) and "echelonize_opts" in st[t[3]]
        elif t[0] in ("glob", "al"):
            ok = True
        if ok:
            rep.ok("takes-effect", c.loc, tool + ": options passed to spasm_echelonize")
        else:
            rep.bad("takes-effect", c.loc, tool + ":opts", "the options are not passed to spasm_echelonize")
    for c in fn.calls("spasm_echelonize_init_opts"):
        if any(cfg.path_inst(p, c) for p in fn.calls("argp_parse", "getopt_long")):
            rep.bad("takes-effect", c.loc, tool + ":reset", "the settings chosen on the command line are reset afterwards")
    for i in fn.insts():
        if i.op == "store":
            a = S.t(i.ops[1])
            if a[0] == "fld" and a[2].endswith("echelonize_opts") and a[3] not in (4, 5):
                pc = [c for c in fn.calls("argp_parse", "getopt_long")]
                if pc and all(cfg.inst_dominates(c, i) for c in pc) and not any(
                        cfg.path_inst(i, c) for c in pc):
                    rep.bad("takes-effect", i.loc, "%s:override%d" % (tool, a[3]),
                            "a setting chosen on the command line is overwritten afterwards")


# ------------------------------------------------------------------ getopt tools
class GetOpt(esp.Client):
    """simulate the program with exactly one option K on its command line"""

    def __init__(self, S, fn, K, site, names, printed):
        self.S, self.fn, self.K, self.site = S, fn, K, site
        self.names, self.printed = names, printed
        self.sets = []          # effect sets at the second call of getopt
        self.ends = []
        self.second = False

    def init(self, e, env):
        for g in self.S.M.globals.values():
            if g.init is not None and g.init.kind == "int":
                env.m[(g,)] = (esp.iv(g.init.val, g.init.val), frozenset())
        return [("start", frozenset(), frozenset())]

    def key(self, q, env):
        out = []
        for v, x in env.v.items():
            if getattr(v, "kind", None) == "inst" and v.op in ("phi", "select") and x and x[0] == "i" \
                    and x[1] is not None and x[1] == x[2]:
                out.append((v.id, x[1]))
        return tuple(sorted(out, key=str))

    def inst(self, e, q, i, env):
        st, eff, calls = q
        if i is self.site:
            e1 = env.copy()
            if st == "start" and self.K is not None:
                e.setv(e1, i, esp.iv(self.K, self.K))
                return [(("opt", frozenset(), calls), e1)]
            if st == "opt":
                self.sets.append(self.changed(eff))
            e.setv(e1, i, esp.iv(-1, -1))
            return [(("rest", eff if st == "opt" else frozenset(), calls), e1)]
        if st == "opt" and i.op == "store":
            a = self.S.t(i.ops[1])
            x = e.val(i.ops[0], env)
            c = C(x[1]) if x and x[0] == "i" and x[1] is not None and x[1] == x[2] else None
            eff = frozenset(y for y in eff if y[1] != a) | {("mem", a, i, i.ops[0], c)}
            return [((st, eff, calls), env)]
        if i.op == "call" and st == "rest":
            n = i.callee_name()
            if n in self.names:
                calls = calls | {n}
            for o in i.ops:
                t = text(o)
                if t and n in ("printf", "fprintf", "puts"):
                    for p in self.printed:
                        if p in t:
                            calls = calls | {("print", p)}
            if n == "exit" and i.ops and e.val(i.ops[0], env) == esp.iv(0, 0):
                self.ends.append(calls)
            return [((st, eff, calls), env)]
        return [(q, env)]

    def edge(self, e, q, b, s, env):
        st, eff, calls = q
        if st != "opt" or not s.phis:
            return q
        new = {}
        old = {x[1]: x for x in eff if x[0] == "phi"}
        for ph in s.phis:
            for v, p in ph.incoming:
                if p is b:
                    src = v
                    x = e.val(v, env)
                    c = C(x[1]) if x and x[0] == "i" and x[1] is not None and x[1] == x[2] else None
                    if v in old:
                        src, c = old[v][2], old[v][3]
                    new[ph] = ("phi", ph, src, c)
        keep = frozenset(x for x in eff if not (x[0] == "phi" and x[1] in new))
        return (st, keep | frozenset(new.values()), calls)

    def changed(self, eff):
        out = []
        hdr = set(self.site.block.phis)
        L = cfg.innermost_loop(self.site.block)
        if L is not None:
            hdr |= set(L.header.phis)
        for x in eff:
            if x[0] == "phi" and x[1] in hdr and x[2] is not x[1]:
                out.append(("var", x[1], x[2], x[3]))
            elif x[0] == "mem":
                out.append(("mem", x[1], x[3], x[4]))
        return out

    def ret(self, e, q, t, env):
        self.ends.append(q[2])


def field_of(S, a):
    if a[0] == "fld" and a[2] == "echelonize_opts":
        return a[3]
    if a[0] == "glob":
        g = S.M.globals.get(a[1])
        if g is not None and g.srctype == "%struct.echelonize_opts":
            return 0
    if a[0] == "al" and a[1].srctype == "%struct.echelonize_opts":
        return 0
    return None


def getopt_tool(b, rep, tool, M, u, fn, site):
    S = sym.Sym(u, M)
    t = S.t(site.ops[3])
    g = None
    if t[0] == "glob":
        g = M.globals.get(t[1])
    elif t[0] == "al":
        for i in fn.insts():
            if i.op == "call" and (i.callee_name() or "").startswith("llvm.memcpy") and S.t(i.ops[0]) == t:
                x = S.t(i.ops[1])
                if x[0] == "glob":
                    g = M.globals.get(x[1])
    if g is None or not aggs(g):
        raise Broken("option table of %s not understood" % tool)
    opts = []
    for a in aggs(g):
        n = text(a.ops[0])
        if n is not None:
            opts.append(Opt(n, a.ops[3].val, a.ops[1].val != 0, g.name))
            if a.ops[2].kind != "null":
                raise Broken("option table of %s stores through flag pointers" % tool)
    if len({o.key for o in opts}) != len(opts):
        rep.bad("distinct-keys", tool, "dup", "two options share a key")
    else:
        rep.ok("distinct-keys", tool, "%d options" % len(opts))
    exp = EFFECT.get(tool, {})
    names = {e[1] for e in exp.values() if e[0] in ("always", "never")}
    printed = [e[1] for e in exp.values() if e[0] == "print"]
    argt = {("ld", ("glob", "optarg"))}

    def sim(K):
        c = GetOpt(S, fn, K, site, names, printed)
        e = esp.Esp(u, fn, c, max_states=300).run()
        if e.overflow:
            raise Broken("state explosion in " + fn.name)
        return c
    base = sim(None)
    targets = {}
    for o in opts:
        key = "%s:%s" % (tool, o.name)
        c = sim(o.key)
        if not c.sets:
            rep.bad("handled", tool, key, "option --%s is declared but refused" % o.name)
            continue
        sets = c.sets[0]
        # the mode letter itself may be the setting
        vals = []
        for kind, tgt, v, cst in sets:
            val = Val(S, v, argt)
            if cst is not None:
                val.kind, val.conv = "const", cst[1]
            vals.append((kind, tgt, v, val))
        if not vals:
            # the default already
            d = [1 for ph in site.block.phis for x, p in ph.incoming if x.kind == "int" and x.val == o.key]
            e = exp.get(o.name)
            if e is None and not d:
                rep.bad("handled", tool, key, "option --%s has no effect" % o.name)
                continue
        rep.ok("handled", site.loc, key)
        uses = any(has_arg_term(S, v, argt) for _, _, v, val in vals)
        if uses != o.takes:
            rep.bad("argument", site.loc, key, "option --%s %s its argument" % (
                o.name, "ignores" if o.takes else "is declared without argument but uses"))
        else:
            rep.ok("argument", site.loc, key)
        nset = [x for x in vals if x[3].kind != "const" or True]
        if o.name in OPTS:
            if len(nset) != 1 or nset[0][0] != "mem" or field_of(S, nset[0][1]) is None:
                rep.bad("right-setting", site.loc, key, "option --%s does not set exactly its own setting" % o.name)
            else:
                want_opts(o.name, field_of(S, nset[0][1]), nset[0][3], rep, site.loc, key)
        e = exp.get(o.name)
        if e is None:
            if o.name not in OPTS and len(nset) > 2:
                rep.bad("right-setting", site.loc, key, "option --%s sets %d settings" % (o.name, len(nset)))
            continue
        if e[0] in ("always", "never"):
            ok = c.ends and all((e[1] in q) == (e[0] == "always") for q in c.ends)
            verdict(rep, ok, fn, key, "option --%s does not decide whether %s is called" % (o.name, e[1]))
            if o.name == "rref" and any(e[1] in q for q in base.ends):
                rep.bad("takes-effect", fn.name, key + ":default", "%s is called without the option" % e[1])
        elif e[0] == "print":
            ok = c.ends and all(("print", e[1]) in q for q in c.ends) and not any(("print", e[1]) in q for q in base.ends)
            verdict(rep, ok, fn, key, "option --%s does not print what it announces" % o.name)
        elif e[0] == "flow":
            ok = len(nset) == 1 and nset[0][3].kind == "int" and not nset[0][3].narrow
            if ok:
                tg = nset[0]
                ok = any(S.t(k.ops[e[2]]) == ("ld", tg[1]) if tg[0] == "mem" else tg[1] in direct(S, k.ops[e[2]])
                         for k in fn.calls(e[1]))
                ok = ok or any(S.t(k.ops[e[2]]) == ("ld", tg[1]) for f2 in M.defined() for k in f2.calls(e[1])
                               if tg[0] == "mem")
            verdict(rep, ok, fn, key, "the value of --%s does not reach %s in 64 bits" % (o.name, e[1]))
        else:
            ok = False
            for kind, tgt, v, val in vals:
                for k in fn.calls(e[1]):
                    if kind == "mem":
                        hit = any(x.kind == "inst" and x.op == "load" and S.t(x.ops[0]) == tgt for x in (
                            depends(S, k.ops[e[2]]) if e[0] == "reach" else direct(S, k.ops[e[2]])))
                    else:
                        hit = tgt in (depends(S, k.ops[e[2]]) if e[0] == "reach" else direct(S, k.ops[e[2]]))
                    if not hit:
                        continue
                    if e[0] == "value":
                        ok = ok or (val.kind == "const" and val.conv == e[3])
                    else:
                        ok = ok or val.kind in ("int", "float")
            ok = ok and len(vals) == 1
            verdict(rep, ok, fn, key, "option --%s does not reach %s as argument %d" % (o.name, e[1], e[2]))
        targets[o.name] = vals
    c = sim(63)
    if c.sets or c.ends:
        rep.bad("usage-error", tool, tool + ":unknown", "an unknown option is silently accepted")
    else:
        rep.ok("usage-error", tool, "unknown option")
    if any(M.functions[f].name for f in M.functions if False):
        pass
    return len(opts)


def arg_struct(M, f, a, depth=0):
    """structure an argument points to, judged by the functions it is handed on to"""
    for i in f.insts():
        if i.op == "gep" and i.ops[0] is a and i.srctype.startswith("%struct."):
            return i.srctype
        if i.op == "call" and depth < 4:
            g = M.functions.get(i.callee_name())
            if g is not None and not g.decl:
                for k, o in enumerate(i.ops):
                    if o is a and k < len(g.args):
                        r = arg_struct(M, g, g.args[k], depth + 1)
                        if r:
                            return r
    for c in (c for g in M.defined() for c in g.calls(f.name)) if depth == 0 else ():
        if a.idx < len(c.ops):
            o = c.ops[a.idx]
            if o.kind in ("arg", "inst") and any(
                    i.op == "gep" and i.ops[0] is o and i.srctype == "%struct.echelonize_opts" for i in c.block.fn.insts()):
                return "%struct.echelonize_opts"
    return None


def check(b, rep):
    rep.expl = ("The option tables are read from the compiled tools; the parser of each is simulated once per declared "
                "option (and on an unknown one), collecting the settings it changes; the rest of the program is simulated "
                "with and without each flag, and argument values are traced to the operation they are meant for.")
    rep.rule("distinct-keys", "options of one table have distinct keys")
    rep.rule("handled", "every declared option is accepted by its parser")
    rep.rule("argument", "an option consumes its argument exactly if it is declared with one")
    rep.rule("right-setting", "an option sets the setting it names, only that one, with the documented polarity and type")
    rep.rule("default", "each setting has a default, different from what a flag sets")
    rep.rule("children", "shared parsers are given the part of the settings they fill")
    rep.rule("usage-error", "unknown options (and stray arguments) are reported")
    rep.rule("takes-effect", "the setting decides / reaches the operation it is meant for")
    rep.rule("setting-read", "each setting of the elimination is consulted by the library")
    n = 0
    for t in b.tool_names():
        M = b.tool(t)
        for u in pts.units(M, ["main"]):
            for fn in u.fns:
                if any(fn.calls("argp_parse")):
                    n += argp_tool(b, rep, t, M, u, fn)
                for site in list(fn.calls("getopt_long", "getopt_long_only")):
                    n += getopt_tool(b, rep, t, M, u, fn, site)
                    if t == "echelonize":
                        opts_reach(rep, fn, sym.Sym(u, M), M, t)
    # settings consulted by the library
    M = b.lib()
    read = set()
    for f in M.defined():
        ptrs = {i.ops[0] for i in f.insts() if i.op == "gep" and i.srctype == "%struct.echelonize_opts"}
        ptrs |= {a for a in f.args if "echelonize_opts" in (arg_struct(M, f, a) or "")}
        for i in f.insts():
            if i.op != "load":
                continue
            a = i.ops[0]
            if a in ptrs and i.type == "i8":
                read.add(0)
            elif a.kind == "inst" and a.op == "gep" and a.srctype == "%struct.echelonize_opts" and len(a.ops) == 3:
                read.add(a.ops[2].val)
    for name, (f, k) in OPTS.items():
        if f in read:
            rep.ok("setting-read", "library", name)
        else:
            rep.bad("setting-read", "library", name, "nothing in the library consults the setting of --%s" % name)
    rep.need("handled", 30)
    rep.need("takes-effect", 20)
    rep.need("default", 20)


if __name__ == "__main__":
    sys.exit(run("P19", check))
