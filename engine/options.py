"""Command-line options of a tool, from the tables given to argp or getopt_long and the code that handles each key.

Every option gets its effects: [(place, kind, instruction)], the place being ("off", n) for byte n of the structure filled by
argp_parse, or the address / loop variable written by a getopt loop."""
import cfg
import nest
import pts
import sym
from shabuf import field_off, sizeof
from sym import C, el_split, to_poly, walk

INIT = 0x1000003
TEXT = ("text",)
ARGP_PARSE = "argp_parse"


def plain(t):
    """the same term, whenever its loads are made"""
    while True:
        n = sym.subst(t, lambda x: ("ld", x[1]) if x[0] == "ldv" else None)
        if n == t:
            return t
        t = n


class Opt:
    def __init__(self, name, key, hasarg, where):
        self.name, self.key, self.hasarg, self.where = name, key, hasarg, where
        self.effects = []
        self.ok = False             # handled by some path that accepts the option
        self.ways = 0

    def places(self):
        return {e[0] for e in self.effects}


def gname(v):
    if v is None:
        return None
    if v.kind in ("global", "func"):
        return v.name
    if v.kind == "cexpr" and v.ops:
        return gname(v.ops[0])
    return None


def cstr(M, v):
    n = gname(v)
    g = M.globals.get(n)
    if g is None or g.init is None:
        return None
    if g.init.kind == "zero":
        return ""
    if g.init.kind != "str":
        return None
    s = g.init.val
    return (s if isinstance(s, bytes) else s.encode()).split(b"\0")[0].decode(errors="replace")


def rows(M, name):
    g = M.globals.get(name)
    if g is None or g.init is None or g.init.kind != "agg":
        return []
    return [list(r.ops) for r in g.init.ops if r.kind == "agg"]


def offset(M, addr, root):
    """byte offset of an address inside the structure at `root`"""
    if addr == root:
        return 0
    if addr[0] == "fld":
        o = offset(M, addr[1], root)
        return None if o is None else o + field_off(M, "%struct." + addr[2], addr[3])[0]
    return None


def kind(t, val=None):
    """how a value derives from the text of the argument"""
    t = plain(t)
    if t[0] == "c":
        return ("const", t[1])
    if t == ("null",):
        return ("const", 0)
    if t == ("arg", 1) or t[0] == "ld" and t[1][0] == "glob" and t[1][1] == "optarg":
        return TEXT
    if t[0] == "fop" and t[1] in ("sitofp", "fpext", "fptrunc", "fptosi"):
        k = kind(t[2])
        return k if t[1] == "sitofp" and k[0] == "int" else ("other", sym.show(t))
    if t[0] == "call":
        i = t[2]
        if t[1] in ("strtol", "strtoll", "strtoul", "strtoull", "atoi", "atol", "atoll"):
            bits = 32 if t[1] == "atoi" else 64
            seen = val
            while seen is not None and seen.kind == "inst" and seen is not i:
                w = {"i8": 8, "i16": 16, "i32": 32}.get(seen.type, 64)
                bits = min(bits, w)
                if seen.op not in ("trunc", "sext", "zext", "sitofp") or not seen.ops:
                    break
                seen = seen.ops[0]
            if val is not None:
                bits = min(bits, {"i8": 8, "i16": 16, "i32": 32}.get(val.type, 64))
            if t[1].startswith("strto") and (i.ops[2].kind != "int" or i.ops[2].val not in (0, 10)):
                return ("other", "number in another base")
            return ("int", bits)
        if t[1] in ("strtod", "strtold", "strtof", "atof"):
            return ("real",)
    return ("other", sym.show(t))


def holds(f, key, x):
    """truth of a fact about the key x when it is `key`; None if it says something else"""
    f = sym.subst(f, lambda t: C(key) if t == x else None)
    if f[0] in ("eq0", "ne0", "lt0"):
        d, c = to_poly(f[1])
        if d:
            return None
        return {"eq0": c == 0, "ne0": c != 0, "lt0": c < 0}[f[0]]
    return None


class Argp:
    def __init__(self, M, name, root):
        """root: the object handed to argp_parse"""
        self.M, self.root = M, root
        self.opts = {}
        self.defaults = {}
        self.inits = []              # (offset, function called on it when parsing starts)
        self.paths = 0
        self.problems = []
        self.parser(name, 0, set())

    def off(self, addr):
        return offset(self.M, addr, self.root)

    def parser(self, name, base, seen):
        g = self.M.globals.get(name)
        if g is None or g.init is None or g.init.kind != "agg" or name in seen:
            return
        ops = g.init.ops
        fn = self.M.functions.get(gname(ops[1]))
        table = rows(self.M, gname(ops[0]))
        kids = [gname(r[0]) for r in rows(self.M, gname(ops[4]))]
        if fn is None or fn.decl:
            return
        u = pts.Unit(fn).solve()
        S = sym.Sym(u, self.M)
        T = nest.Tree(u, fn, S, lambda c: None, lambda t: None, limit=3000)
        T.stops = True
        paths = T.top()
        self.paths += len(paths)
        for r in table:
            nm = cstr(self.M, r[0])
            if not nm:
                continue
            o = Opt(nm, r[1].val, gname(r[2]) is not None, "%s:%s" % (gname(ops[0]), nm))
            if nm in self.opts:
                self.problems.append((fn.name, "option --%s is defined twice" % nm))
            for p in paths:
                if any(holds(f, o.key, ("arg", 0)) is False for f in p.facts):
                    continue
                o.ways += 1
                if p.ret == C(0):
                    o.ok = True
                elif p.end is not None and p.end.term.op == "unreachable":
                    continue
                for e in p.stores():
                    a = self.place(e.addr, base)
                    o.effects.append((a, kind(e.val, e.inst.ops[0]), e.inst))
            o.fn = fn.name
            self.opts[nm] = o
        for p in paths:
            if any(holds(f, INIT, ("arg", 0)) is False for f in p.facts):
                continue
            kid = {}
            for e in p.stores():
                b, idx = el_split(e.addr)
                if b[0] in ("ld", "ldv") and b[1][0] == "fld" and b[1][2] == "argp_state" and idx[0] == "c":
                    kid[idx[1]] = self.place(e.val, base)
                else:
                    self.defaults[self.place(e.addr, base)] = (kind(e.val, e.inst.ops[0]), e.inst)
            for e in p.events:
                if not isinstance(e, nest.Store) and e[0] == "call" and e[2]:
                    self.inits.append((self.place(e[2][0], base), e[1]))
            for k, child in enumerate(kids):
                if child and kid.get(k) and kid[k][0] == "off":
                    self.parser(child, kid[k][1], seen | {name})
                elif child:
                    self.problems.append((fn.name, "the options of %s are not told where to put their values" % child))

    def place(self, addr, base):
        a = addr
        while a[0] == "fld":
            a = a[1]
        if a[0] in ("ld", "ldv") and a[1][0] == "fld" and a[1][2] == "argp_state":
            o = offset(self.M, addr, a)
            if o is not None:
                return ("off", base + o)
        return ("at", plain(addr))

    # -- lookups from main ---------------------------------------------------
    def named(self, addr):
        """the options that write to this address of main"""
        o = self.off(addr)
        if o is None:
            return None
        r = sorted(n for n, x in self.opts.items() if ("off", o) in x.places())
        return tuple(r)

    def where(self, name):
        o = self.opts.get(name)
        return o.places() if o else set()

    def default(self, place):
        d = self.defaults.get(place)
        return d[0] if d else None

    def place_of(self, t):
        """place whose content the (plain) term is"""
        if t[0] == "ld":
            o = self.off(t[1])
            if o is not None:
                return ("off", o)
        return None


class Getopt:
    def __init__(self, M, T, call):
        self.M, self.T = M, T
        self.opts = {}
        self.problems = []
        self.inits = []
        L = [l for l in cfg.loops(T.fn) if call.block in l.blocks]
        self.L = min(L, key=lambda l: len(l.blocks)) if L else None
        self.call = call
        name = None
        a = el_split(T.S.t(call.ops[3]))[0]
        if a[0] == "glob":
            name = a[1]
        else:
            for i in T.fn.insts():
                if i.op == "call" and (i.callee_name() or "").startswith("llvm.memcpy"):
                    if el_split(T.S.t(i.ops[0]))[0] == a:
                        b = el_split(T.S.t(i.ops[1]))[0]
                        if b[0] == "glob":
                            name = b[1]
        self.table = name
        self.paths = 0
        if self.L is None or name is None:
            self.problems.append((call.loc, "the option table is not found"))
            return
        key = ("call", "getopt_long", call)
        bodies = T.bodies(self.L)
        self.paths = len(bodies)
        self.init = {}
        for r in rows(M, name):
            nm = cstr(M, r[0])
            if not nm:
                continue
            o = Opt(nm, r[3].val, r[1].val == 1, "%s:%s" % (name, nm))
            o.fn = "main"
            for p in bodies:
                hs = [holds(f, o.key, key) for f in p.facts]
                if False in hs:
                    continue
                o.ways += 1
                o.ok = True
                for e in p.stores():
                    o.effects.append((("at", plain(e.addr)), kind(e.val, e.inst.ops[0]), e.inst))
                for ph, v in p.next.items():
                    if v == ("phi", ph):
                        continue
                    if v == key or self.key_copy(v, key):
                        v = C(o.key)
                    o.effects.append((("phi", ph), kind(v), ph))
            self.opts[nm] = o

    def key_copy(self, v, key):
        return v[0] in ("cast",) and v[-1] == key

    def place_of(self, t):
        if t[0] == "ld":
            return ("at", t[1])
        if t[0] == "phi":
            return t
        return None

    def where(self, name):
        o = self.opts.get(name)
        return o.places() if o else set()

    def named(self, addr):
        return tuple(sorted(n for n, x in self.opts.items() if ("at", addr) in x.places()))

    def default(self, place):
        if place[0] == "at" and place[1][0] == "glob":
            g = self.M.globals.get(place[1][1])
            if g is not None and g.init is not None:
                if g.init.kind == "int":
                    return ("const", g.init.val)
                if g.init.kind in ("zero", "null"):
                    return ("const", 0)
        if place[0] == "phi":
            for v, p in place[1].incoming:
                if p not in self.L.blocks:
                    return kind(self.T.S.t(v))
        return None


def of(M, T):
    """the options of a tool's main; None if it takes none"""
    for i in T.fn.insts():
        if i.op != "call":
            continue
        n = i.callee_name()
        if n == ARGP_PARSE:
            a = T.S.t(i.ops[0])
            if a[0] == "glob":
                o = Argp(M, a[1], T.S.t(i.ops[5]))
                o.call = i
                return o
        if n in ("getopt_long", "getopt_long_only"):
            return Getopt(M, T, i)
    return None
