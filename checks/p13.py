"""P13: what is saved is exactly what loading reads back."""
from common import *
import pts
import cfg
import esp
import sym
import seqs
from sym import C, add, el_split, walk, subst
from p12 import SCANF

PRINTF = {"fprintf": (1, 0), "printf": (0, None)}
PUTS = {"fputs": (0, 1), "fputc": (0, 1), "putc": (0, 1), "_IO_putc": (0, 1), "puts": (0, None), "putchar": (0, None),
        "fwrite": (0, 3)}
WIDTH = {"d": 32, "i": 32, "ld": 64, "li": 64, "lld": 64, "lli": 64, "02x": 32, "02hhx": 32, "02X": 32, "c": 32, "u": 32,
         "jd": 64, "zd": 64}


def text(v):
    if v.kind == "global" and v.init is not None and v.init.kind == "str":
        s = v.init.val
        return (s.decode("latin1") if isinstance(s, bytes) else s).rstrip("\0")
    if v.kind == "global" and v.init is not None and v.init.kind == "zero":
        return ""
    return None


def split_fmt(fmt):
    """[('lit', s) | ('conv', spec)]"""
    out, pos = [], 0
    for m in re.finditer(r"%(%|[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l|j|z|t|L)?(?:\[\^?\]?[^\]]*\]|[a-zA-Z]))", fmt):
        if m.start() > pos:
            out.append(("lit", fmt[pos:m.start()]))
        out.append(("lit", "%") if m.group(1) == "%" else ("conv", m.group(1)))
        pos = m.end()
    if pos < len(fmt):
        out.append(("lit", fmt[pos:]))
    return out


class Writer:
    """tokens printed to stream `f` (a term)"""

    def __init__(self, S, f):
        self.S, self.f = S, f

    def __call__(self, i):
        if i.op != "call":
            return None
        n = i.callee_name()
        S = self.S
        if n in PRINTF:
            fp, sp = PRINTF[n]
            if sp is None or S.t(i.ops[sp]) != self.f:
                return None
            fmt = text(i.ops[fp])
            if fmt is None:
                return [("?", i)]
            out, k = [], fp + 1
            for kind, s in split_fmt(fmt):
                if kind == "lit":
                    out.append(("lit", s))
                else:
                    if k >= len(i.ops):
                        return [("?", i)]
                    out.append(("num", s, S.t(i.ops[k]), i.ops[k].type, i, i.ops[k]))
                    k += 1
            return out
        if n in PUTS:
            a, sp = PUTS[n]
            if sp is None or S.t(i.ops[sp]) != self.f:
                return None
            v = i.ops[a]
            if n == "fputs":
                s = text(v)
            elif n == "fwrite":
                s = text(v)
                z = S.t(i.ops[1])[1] * S.t(i.ops[2])[1] if S.t(i.ops[1])[0] == S.t(i.ops[2])[0] == "c" else None
                s = s[:z] if s is not None and z is not None and z <= len(s) else None
            else:
                s = chr(v.val & 255) if v.kind == "int" else None
            return [("?", i)] if s is None else [("lit", s)]
        if any(S.t(o) == self.f for o in i.ops) and n not in ("fflush", "ferror", "fclose", "setvbuf"):
            return [("?", i)]
        return None


def norm(seq, assume):
    """merge literals, constants become text, alternatives under known conditions are resolved"""
    out = []
    dec = seqs.decider(assume)

    def lit(s):
        if out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + s)
        else:
            out.append(("lit", s))
    for x in seq:
        if x[0] == "lit":
            lit(x[1])
        elif x[0] == "num":
            t = seqs.assuming(x[2], assume)
            if t[0] == "c" and x[1] in WIDTH and not x[1].endswith(("x", "X", "c")):
                lit(str(t[1]))
            elif t[0] == "c" and x[1] == "c":
                lit(chr(t[1] & 255))
            else:
                out.append(("num", x[1], t) + x[3:])
        elif x[0] == "loop":
            out.append(("loop", x[1], norm(x[2], assume)))
        elif x[0] == "alt":
            d = dec(x[1]) if x[1] is not None else None
            if d is not None:
                for y in norm(x[2][0 if d else 1], assume):
                    if y[0] == "lit":
                        lit(y[1])
                    else:
                        out.append(y)
            else:
                a = [norm(y, assume) for y in x[2]]
                out.append(("alt", x[1], a))
        else:
            out.append(x)
    return [("lit", re.sub(r"[ \t]*\n", "\n", re.sub(r"[ \t]+", " ", x[1]))) if x[0] == "lit" else x for x in out]


def bits(v, depth=0):
    """number of bits that may carry information"""
    if v.kind == "inst" and depth < 6:
        if v.op in ("sext", "zext"):
            return bits(v.ops[0], depth + 1)
        if v.op == "trunc":
            return min(bits(v.ops[0], depth + 1), int(v.type[1:]))
        if v.op == "select":
            return max(bits(o, depth + 1) for o in v.ops[1:])
        if v.op == "phi":
            return max(bits(o, depth + 1) for o, _ in v.incoming)
    if v.kind == "int":
        return 1
    return int(v.type[1:]) if v.type[1:].isdigit() else 64


def lossless(v, depth=0):
    """no information is cut off on the way from the stored value to v"""
    if v.kind != "inst" or depth > 6:
        return True
    if v.op in ("sext", "zext"):
        return lossless(v.ops[0], depth + 1)
    if v.op == "trunc":
        return bits(v.ops[0]) <= int(v.type[1:]) and lossless(v.ops[0], depth + 1)
    if v.op == "select":
        return all(lossless(o, depth + 1) for o in v.ops[1:])
    if v.op == "phi":
        return all(lossless(o, depth + 1) for o, _ in v.incoming)
    return True


def signed(x):
    return x[0] == "num" and lossless(x[5]) and x[1] in ("d", "i", "ld", "li", "lld", "lli", "jd", "zd") and \
        x[3] == "i%d" % WIDTH[x[1]]


def fld(st, k, base=("arg", 0)):
    return ("fld", base, st, k)


def ld(t):
    return ("ld", t)


class Bad(Exception):
    pass


def line3(seq, a, b, c, what):
    """'a b c\\n' with signed conversions of full width"""
    want = [("num", a), ("lit", " "), ("num", b), ("lit", " "), ("num", c), ("lit", "\n")]
    flat = []
    for x in seq:
        flat.append(x)
    k = 0
    for w in want:
        if k >= len(flat):
            raise Bad("%s is incomplete" % what)
        x = flat[k]
        if w[0] == "num":
            if w[1][0] == "c":
                # a constant has become text
                s = str(w[1][1])
                if x[0] != "lit" or not x[1].startswith(s):
                    raise Bad("%s does not show %s where it should" % (what, s))
                flat[k] = ("lit", x[1][len(s):])
                if not flat[k][1]:
                    k += 1
                continue
            if not signed(x):
                raise Bad("%s: something else than a full-width signed number is written" % what)
            if x[2] != w[1]:
                raise Bad("%s: writes %s instead of %s" % (what, sym.show(x[2]), sym.show(w[1])))
            k += 1
        else:
            if x[0] != "lit" or not x[1].startswith(w[1]):
                raise Bad("%s: fields are not separated as the reader expects" % what)
            flat[k] = ("lit", x[1][len(w[1]):])
            if not flat[k][1]:
                k += 1
    rest = [x for x in flat[k:] if x != ("lit", "")]
    return rest


def full_loop(x, lo, hi, what):
    if x[0] != "loop":
        raise Bad("%s: expected a loop over the entries" % what)
    r = x[1]
    if r is None or r.first is None:
        raise Bad("%s: the loop does not visit a known range exactly once" % what)
    if r.lo != lo or r.hi != hi:
        raise Bad("%s: the loop covers %s..%s instead of %s..%s" % (
            what, sym.show(r.lo), sym.show(r.hi), sym.show(lo), sym.show(hi)))
    return r.term


def is_null_cond(S, p):
    return ("eq0", sym.to_poly and None) if False else None


def null_conds(fn, S, base):
    """the condition terms that test `base` against NULL, as {cond: truth when NULL}"""
    out = {}

    def scan(t):
        for x in walk(t):
            if x[0] in ("eq0", "ne0") and x[1][0] == "pdiff" and base in x[1][1:] and ("null",) in x[1][1:]:
                out[x] = x[0] == "eq0"
    for i in fn.insts():
        if i.op == "icmp":
            scan(S.t(i))
    return out


def save_matrix(rep, u, fn, M, st, fi):
    """SMS: header, one line per entry, terminator"""
    S = sym.Sym(u, M)
    f = ("arg", 1)
    n, m = ld(fld(st, fi["n"])), ld(fld(st, fi["m"]))
    xs = ld(fld(st, fi["x"]))
    for null in (False, True):
        name = fn.name + (" (no values)" if null else "")
        nc = {c: (v == null) for c, v in null_conds(fn, S, xs).items()}
        w = seqs.Walker(S, fn, Writer(S, f), seqs.decider(nc))
        seq = norm(w.all(), nc)
        key = fn.name + (":null" if null else ":values")
        try:
            for x in seq:
                if x[0] == "?":
                    raise Bad("writes to the file in a way that is not understood")
            # header
            k = 0
            hdr = []
            while k < len(seq) and seq[k][0] != "loop":
                if seq[k][0] == "alt":
                    raise Bad("part of the header is written only under a condition")
                hdr.append(seq[k])
                k += 1
            hd = [(x[0], x[1] if x[0] == "lit" else x[2]) for x in hdr]
            if not (len(hd) == 4 and hd[0] == ("num", n) and hd[1] == ("lit", " ") and hd[2] == ("num", m) and
                    hd[3][0] == "lit" and hd[3][1] == " M\n" and signed(hdr[0]) and signed(hdr[2])):
                raise Bad("the header is not `rows columns M'")
            rep.ok("header", fn.name, name)
            if k >= len(seq):
                raise Bad("no entry is written")
            if st == "spasm_csr":
                i = full_loop(seq[k], C(0), n, "rows")
                body = [x for x in seq[k][2]]
                if len(body) != 1:
                    raise Bad("a row writes something else than its entries" if len(body) > 1 or body[0][0] != "alt"
                              else "a row is written only under a condition")
                p = ld(fld(st, 3))
                px = full_loop(body[0], ld(sym.el(p, i)), ld(sym.el(p, add(i, C(1)))), "entries of a row")
                inner = body[0][2]
                a = add(i, C(1))
            else:
                px = full_loop(seq[k], C(0), ld(fld(st, 1)), "entries")
                inner = seq[k][2]
                a = add(ld(sym.el(ld(fld(st, 4)), px)), C(1))
            b = add(ld(sym.el(ld(fld(st, fi["j"])), px)), C(1))
            c = C(1) if null else ld(sym.el(xs, px))
            if any(x[0] in ("alt", "loop") for x in inner):
                raise Bad("an entry is written only under a condition, or several times")
            if line3(inner, a, b, c, "an entry"):
                raise Bad("an entry is followed by something else on its line")
            rep.ok("entries", fn.name, name)
            tail = seq[k + 1:]
            if [x for x in tail] != [("lit", "0 0 0\n")]:
                raise Bad("the file does not end with the terminator `0 0 0'")
            rep.ok("terminator", fn.name, name)
        except Bad as e:
            rep.bad("entries", fn.name, key, str(e))


# ------------------------------------------------------------------ SMS reader
class Reader(esp.Client):
    """life of one line of an SMS file: read, converted, stored once or recognised as the end"""

    def __init__(self, S, rep, fn, sites, add_sites, forms):
        self.S, self.rep, self.fn = S, rep, fn
        self.sites, self.adds, self.forms = sites, add_sites, forms
        self.msgs = {}
        self.seen = set()

    def init(self, e, env):
        return ["head"]

    def say(self, key, i, msg):
        self.msgs.setdefault(key, (i.loc if i is not None else self.fn.name, msg))

    def key(self, q, env):
        out = []
        for v, x in env.v.items():
            if getattr(v, "kind", None) == "inst" and v.op == "phi" and v.type in ("i1", "i8", "i32") and x and x[0] == "i" \
                    and x[1] is not None and x[1] == x[2]:
                out.append((v.id, x[1]))
        return (q, tuple(sorted(out)))

    def inst(self, e, q, i, env):
        if i.op == "call":
            n = i.callee_name()
            if n == "strncmp":
                e1 = env.copy()
                e.setv(e1, i, esp.iv(1, 1))          # not a MatrixMarket file
                return [(q, e1)]
            if n == "fgets":
                if q[0] == "entry":
                    self.say("lost", i, "an entry that was read is not stored")
                return [("line" if q == "added" or q[0] == "entry" else q, env)]
            if i in self.sites:
                # three cases decide everything: end marker, or one of the numbers differs from zero
                cells = [e.cell(o) for o in i.ops[2:5]]
                if None in cells:
                    raise Broken("the numbers of a line are not read into simple variables")
                out = []
                Z, P, N = esp.iv(0, 0), esp.iv(1, None), esp.iv(None, -1)
                T = esp.iv(None, None)
                for n, (vals, mark) in enumerate((((Z, Z, Z), True), ((P, T, T), False), ((N, T, T), False), ((Z, P, T), False),
                                   ((Z, N, T), False), ((Z, Z, P), False), ((Z, Z, N), False))):
                    e1 = env.copy()
                    for c, v in zip(cells, vals):
                        e1.m[c] = (v, frozenset())
                    e.setv(e1, i, esp.iv(3, 3))
                    if q in ("marker",):
                        out.append((q, e1))
                        continue
                    out.append(("marker" if mark else ("entry", n), e1))
                return out
            if i in self.adds:
                self.seen.add(i)
                if q[0] == "entry":
                    return [("added", env)]
                self.say("extra", i, "the end marker is stored as an entry" if q == "marker"
                         else "an entry is stored twice, or without having been read")
                return [(q, env)]
        return [(q, env)]

    def ret(self, e, q, t, env):
        if q != "marker":
            self.say("early", t, "loading succeeds before the end marker was read")


def load_matrix(rep, u, fn, M):
    S = sym.Sym(u, M)
    sites, hdr = [], []
    for i in fn.insts():
        if i.op == "call" and i.callee_name() in SCANF and SCANF[i.callee_name()] == 1:
            fmt = text(i.ops[1])
            if fmt is None:
                continue
            cv = [s for k, s in split_fmt(fmt) if k == "conv"]
            lit = "".join(s for k, s in split_fmt(fmt) if k == "lit").strip()
            if len(cv) == 3 and cv[2] == "c" and not lit:
                hdr.append((i, cv))
            elif len(cv) == 3 and not lit and all(c[-1] in "di" for c in cv):
                sites.append((i, cv))
    al = list(fn.calls("spasm_triplet_alloc"))
    adds = list(fn.calls("spasm_add_entry"))
    if not al or not adds or not sites:
        raise Broken("the loader is not understood")
    # entry reads: those from which an add_entry is reached without another conversion in between
    ent = [(i, cv) for i, cv in sites if any(cfg.path_inst(i, a, lambda x: x.op == "call" and x.callee_name() in SCANF)
                                              for a in adds)]
    fn_ = fn.name
    for i, cv in hdr:
        ok = [c for c in cv[:2]] == ["d", "d"]
        cells = [S.t(o) for o in i.ops[2:4]]
        if ok and all([S.t(o) for o in a.ops[:2]] == [ld(c) for c in cells] for a in al):
            rep.ok("reader-header", i.loc, "rows, columns -> spasm_triplet_alloc")
        else:
            rep.bad("reader-header", i.loc, fn_ + ":dims", "the dimensions of the file do not become those of the matrix")
    if not hdr:
        rep.bad("reader-header", fn_, fn_ + ":nohdr", "no SMS header is read")
    for a in al:
        p, v = S.t(a.ops[3]), S.t(a.ops[4])
        if p == ("arg", 1) and v == ("ne0", add(("arg", 1), C(1))):
            rep.ok("reader-header", a.loc, "prime, values")
        else:
            rep.bad("reader-header", a.loc, fn_ + ":values", "values are not kept exactly when a prime is given")
    for i, cv in ent:
        cells = [S.t(o) for o in i.ops[2:5]]
        w = [WIDTH.get(c) for c in cv]
        if w[:2] != [32, 32] or w[2] != 64 or len(set(cells)) != 3:
            rep.bad("reader-entry", i.loc, fn_ + ":conv", "an entry is not read as two 32-bit indices and a 64-bit value")
            continue
        for a in adds:
            if not cfg.path_inst(i, a, lambda x: x.op == "call" and x.callee_name() in SCANF):
                continue
            got = [S.t(o) for o in a.ops[1:4]]
            want = [add(ld(cells[0]), C(-1)), add(ld(cells[1]), C(-1)), ld(cells[2])]
            if got == want and S.t(a.ops[0]) in [S.t(x) for x in al]:
                rep.ok("reader-entry", a.loc, "entry (i-1, j-1, x)")
            else:
                rep.bad("reader-entry", a.loc, fn_ + ":entry", "the entry stored is not (i - 1, j - 1, x) of the line read")
    for a in adds:
        if not any(cfg.path_inst(i, a, lambda x: x.op == "call" and x.callee_name() in SCANF) for i, _ in ent):
            rep.bad("reader-entry", a.loc, fn_ + ":stray", "an entry is stored that was not read")
    c = Reader(S, rep, fn, {i for i, _ in ent}, set(adds), None)
    e = esp.Esp(u, fn, c, max_states=1500).run()
    if e.overflow and not c.msgs:
        raise Broken("state explosion in " + fn.name)
    for k, (loc, msg) in c.msgs.items():
        rep.bad("reader-once", loc, fn_ + ":" + k, msg)
    if not c.msgs:
        if not c.seen:
            raise Broken("no entry is ever stored in the simulation of the loader")
        rep.ok("reader-once", fn_, "every line")
    for i in fn.insts():
        if i.op == "store" and S.t(i.ops[1])[0] == "fld" and S.t(i.ops[1])[2] == "spasm_triplet":
            rep.bad("reader-entry", i.loc, fn_ + ":touch", "the loader changes the matrix besides adding entries")


def add_entry(rep, u, fn, M):
    S = sym.Sym(u, M)
    T = "spasm_triplet"
    nz = ld(fld(T, 1))
    want = {"i": (sym.el(ld(fld(T, 4)), nz), ("arg", 1)), "j": (sym.el(ld(fld(T, 5)), nz), ("arg", 2)),
            "nz": (fld(T, 1), add(nz, C(1)))}
    st = {}
    for i in fn.insts():
        if i.op == "store":
            st.setdefault(S.t(i.ops[1]), []).append(i)
    for k, (a, v) in want.items():
        l = st.get(a, [])
        if len(l) == 1 and S.t(l[0].ops[0]) == v:
            rep.ok("stored", l[0].loc, "spasm_add_entry: " + k)
        else:
            rep.bad("stored", fn.name, "spasm_add_entry:" + k, "the %s of a new entry is not stored at its place" % k)
    xa = sym.el(ld(fld(T, 6)), nz)
    l = st.get(xa, [])
    ok = len(l) == 1
    if ok:
        v = S.t(l[0].ops[0])
        ok = v[0] == "call" and v[1] == "spasm_ZZp_init" and S.t(v[2].ops[1]) == ("arg", 3) and \
            S.t(v[2].ops[0]) == fld(T, 7)
    if ok:
        rep.ok("stored", l[0].loc, "spasm_add_entry: value")
    else:
        rep.bad("stored", fn.name, "spasm_add_entry:x", "the value of a new entry is not its residue modulo p")
    # returns without storing: only for a zero value
    n1 = st.get(fld(T, 1), [None])[0]
    i1 = st.get(want["i"][0], [None])[0]
    j1 = st.get(want["j"][0], [None])[0]
    if not (n1 and i1 and j1):
        return
    if not (cfg.inst_dominates(i1, n1) and cfg.inst_dominates(j1, n1)):
        rep.bad("stored", n1.loc, "spasm_add_entry:order", "the entry is counted before it is stored")
    for (b, s) in cfg.control_deps(n1.block):
        t = b.term
        from ranges import facts
        truth = t.targets[0] is s
        other = t.targets[1] if truth else t.targets[0]
        if other.term.op == "unreachable":
            continue
        c = S.cond(S.t(t.ops[0]))
        z = ("eq0", v) if l else None
        if c in (("eq0", v), ("ne0", v)) and (c[0] == "ne0") == truth:
            rep.ok("stored", t.loc, "spasm_add_entry: zeros are dropped")
        elif c[0] in ("eq0", "ne0") and c[1][0] == "pdiff":
            continue
        elif c[0] in ("lt0",) and "arg" in str(c):
            continue
        elif ld(fld(T, 0)) in set(walk(c)):
            continue
        else:
            rep.bad("stored", t.loc, "spasm_add_entry:cond", "an entry with a non-zero value may be dropped")


# ------------------------------------------------------------------ certificates
CF = {0: "r", 1: "prime", 2: "hash", 3: "i", 4: "j", 5: "x", 6: "y"}
CST = "spasm_rank_certificate"


def cert_tokens(seq, place, what):
    """flatten to [('num', field) | ('arr', field, lo, hi) | ('hash',)] ; place: term -> (field, index) or None"""
    out = []
    for x in seq:
        if x[0] == "num":
            p = place(x[2])
            if p is None:
                raise Bad("%s: a number that is no part of the certificate" % what)
            out.append(("num", p[0], x[1]))
        elif x[0] == "loop":
            r = x[1]
            if r is None or r.first is None:
                raise Bad("%s: a loop does not visit a known range exactly once" % what)
            body = [y for y in x[2] if not (y[0] == "lit" and y[1].strip() == "")]
            if not body:
                continue
            if len(body) != 1 or body[0][0] != "num":
                raise Bad("%s: a loop handles something else than one array" % what)
            p = place(body[0][2])
            if p is None or p[1] != r.term:
                raise Bad("%s: an array is not traversed element by element" % what)
            if len(body[0]) > 5 and not lossless(body[0][5]):
                raise Bad("%s: the numbers of an array are truncated" % what)
            seps = [y for y in x[2] if y[0] == "lit"]
            out.append(("arr", p[0], r.lo, r.hi, body[0][1], bool(seps)))
        elif x[0] == "hash":
            out.append(x)
        elif x[0] == "lit":
            if x[1].strip():
                raise Bad("%s: text `%s'" % (what, x[1].strip()))
            out.append(("ws", x[1]))
        elif x[0] == "alt":
            raise Bad("%s: part of the certificate is handled only under a condition" % what)
        else:
            raise Bad("%s: not understood" % what)
    return out


def cert_writer(rep, u, fn, M):
    S = sym.Sym(u, M)
    w = seqs.Walker(S, fn, Writer(S, ("arg", 1)))
    seq = norm(w.all(), {})

    def place(t):
        if t[0] == "ld":
            a = t[1]
            b, i = el_split(a)
            if b[0] == "fld" and b[1] == ("arg", 0):
                return (b[3], i) if b[3] == 2 else ((b[3], C(0)) if i == C(0) else None)
            if b[0] == "ld" and b[1][0] == "fld" and b[1][1] == ("arg", 0):
                return b[1][3], i
        return None
    toks = cert_tokens(seq, place, fn.name)
    out = []
    for k, x in enumerate(toks):
        if x[0] == "num":
            y = next((s for s in seq if s[0] == "num" and place(s[2]) and place(s[2])[0] == x[1]))
            if not signed(y):
                raise Bad("%s: %s is not written as a full-width signed number" % (fn.name, CF[x[1]]))
            out.append(("num", x[1]))
        elif x[0] == "arr":
            if x[1] == 2:
                if x[4] not in ("02x", "02X", "02hhx") or x[5]:
                    raise Bad("%s: the hash is not written as two hexadecimal digits per byte" % fn.name)
                if (x[2], x[3]) != (C(0), C(32)):
                    raise Bad("%s: the hash is not written on 32 bytes" % fn.name)
                out.append(("hash",))
            else:
                if not x[5]:
                    raise Bad("%s: the numbers of %s are not separated" % (fn.name, CF[x[1]]))
                if x[4] not in ("d", "i"):
                    raise Bad("%s: %s is not written as full-width signed numbers" % (fn.name, CF[x[1]]))
                out.append(("arr", x[1], x[2], x[3]))
        elif x[0] == "ws":
            out.append(x)
    # separators
    for k in range(len(out) - 1):
        if out[k][0] != "ws" and out[k + 1][0] != "ws" and not (out[k][0] == "arr"):
            raise Bad("%s: nothing separates two fields" % fn.name)
    # the hash starts on its own line
    for k, x in enumerate(out):
        if x == ("hash",) and (k == 0 or out[k - 1][0] != "ws"):
            raise Bad("%s: the hash does not start on its own" % fn.name)
    return [x for x in out if x[0] != "ws"]


class CertReader:
    def __init__(self, S, fn):
        self.S, self.fn = S, fn
        self.alias = {}
        self.vals = {}
        for i in fn.insts():
            if i.op == "store":
                a = S.t(i.ops[1])
                if a[0] == "fld" and a[1] == ("arg", 1):
                    self.alias[S.t(i.ops[0])] = a[3]

    def dest(self, o, site):
        t = self.S.t(o)
        b, i = el_split(t)
        if b[0] == "fld" and b[1] == ("arg", 1):
            return (b[3], i)
        if b[0] == "ld" and b[1][0] == "fld" and b[1][1] == ("arg", 1):
            return (b[1][3], i)
        if b in self.alias:
            return (self.alias[b], i)
        if t[0] == "al":
            for s in self.fn.insts():
                if s.op == "store" and self.S.t(s.ops[0]) == ("ld", t) and cfg.inst_dominates(site, s) and \
                        cfg.innermost_loop(s.block) is cfg.innermost_loop(site.block):
                    return self.dest(s.ops[1], site)
        return None

    def __call__(self, i):
        if i.op != "call":
            return None
        n = i.callee_name()
        if n in SCANF:
            base = SCANF[n]
            fmt = text(i.ops[base])
            if fmt is None:
                return [("?", i)]
            if n.endswith("sscanf"):
                cv = [s for k, s in split_fmt(fmt) if k == "conv"]
                p = self.dest(i.ops[2], i) if len(i.ops) > 2 else None
                if cv in (["2hhx"], ["02hhx"]) and p and p[0] == 2:
                    b, j = el_split(self.S.t(i.ops[0]))
                    return [("hb", p[1], b, (j, add(j, C(1))), None)]
                return [("?", i)]
            out, k = [], base + 1
            for kind, s in split_fmt(fmt):
                if kind == "lit":
                    if s.strip():
                        return [("?", i)]
                    continue
                p = self.dest(i.ops[k], i)
                if p is None:
                    return [("?", i)]
                out.append(("num", s, ("place",) + p, None, i))
                k += 1
            return out
        if n == "fgets":
            return [("line", self.S.t(i.ops[0]), self.S.t(i.ops[1]), i)]
        return None


def cert_reader(rep, u, fn, M):
    S = sym.Sym(u, M)
    cr = CertReader(S, fn)
    rstore = None
    for i in fn.insts():
        if i.op == "store" and S.t(i.ops[1]) == fld(CST, 0, ("arg", 1)):
            rstore = S.t(i.ops[0])
    base = cr.__call__

    def tokens(i):
        t = base(i)
        if t:
            return t
        if i.op == "store":
            a, v = S.t(i.ops[1]), S.t(i.ops[0])
            b, k = el_split(a)
            if b == fld(CST, 2, ("arg", 1)):
                if v[0] == "call" and v[1] in ("strtoul", "strtol", "strtoull", "strtoll") and S.t(v[2].ops[2]) == C(16):
                    buf = S.t(v[2].ops[0])
                    cells = {}
                    for s in fn.insts():
                        if s.op == "store" and el_split(S.t(s.ops[1]))[0] == buf and cfg.inst_dominates(s, v[2]):
                            cells[el_split(S.t(s.ops[1]))[1]] = S.t(s.ops[0])
                    c0, c1, c2 = (cells.get(C(z)) for z in range(3))
                    if c2 == C(0) and c0 and c1 and c0[0] == "ld" and c1[0] == "ld":
                        b0, i0 = el_split(c0[1])
                        b1, i1 = el_split(c1[1])
                        if b0 == b1:
                            return [("hb", k, b0, (i0, i1), None)]
                return [("?", i)]
        return None
    w = seqs.Walker(S, fn, tokens, reject=0)
    seq = w.all()
    out, line = [], None
    for x in seq:
        if x[0] == "line":
            if x[2] != C(65):
                raise Bad("%s: the hash line is not read on 64 characters" % fn.name)
            line = x[1]
        elif x[0] == "loop" and any(y[0] == "hb" for y in x[2]):
            hb = [y for y in x[2]]
            r = x[1]
            if len(hb) != 1 or r is None or (r.lo, r.hi) != (C(0), C(32)) or hb[0][1] != r.term:
                raise Bad("%s: the hash is not read on 32 bytes" % fn.name)
            two = sym.mul(C(2), r.term)
            if hb[0][2] != line or hb[0][3] != (two, add(two, C(1))):
                raise Bad("%s: byte k of the hash is not made of digits 2k and 2k+1" % fn.name)
            out.append(("hash",))
        elif x[0] == "num":
            out.append(("num", x[2][1], x[1]))
        elif x[0] == "loop":
            r = x[1]
            if r is None or r.first is None:
                raise Bad("%s: a loop does not visit a known range exactly once" % fn.name)
            if len(x[2]) != 1 or x[2][0][0] != "num" or x[2][0][2][2] != r.term:
                raise Bad("%s: a loop reads something else than one array" % fn.name)
            hi = r.hi
            if rstore is not None and hi == rstore:
                hi = ld(fld(CST, 0, ("arg", 1)))
            y = x[2][0]
            out.append(("arr", y[2][1], r.lo, hi, y[1]))
        else:
            raise Bad("%s: not understood, or only under a condition" % fn.name)
    fin = []
    for x in out:
        if x[0] == "num":
            if x[2] not in (("ld", "li", "lld") if x[1] == 1 else ("d", "i")):
                raise Bad("%s: %s is not read with its full width" % (fn.name, CF[x[1]]))
            if x[2].endswith("i"):
                raise Bad("%s: numbers are read in a base that depends on their first digit" % fn.name)
            fin.append(("num", x[1]))
        elif x[0] == "arr":
            if x[4] != "d":
                raise Bad("%s: %s is not read as full-width decimal numbers" % (fn.name, CF[x[1]]))
            fin.append(("arr", x[1], x[2], subst(x[3], lambda a: ("arg", 0) if a == ("arg", 1) else None)))
        else:
            fin.append(x)
    return fin


def certificates(rep, b, M):
    us = {u.fn.name: u for u in pts.units(M, ["spasm_rank_certificate_save", "spasm_rank_certificate_load"])}
    if len(us) != 2:
        raise Broken("certificate writer / reader not found")
    seq = {}
    for n, f in (("spasm_rank_certificate_save", cert_writer), ("spasm_rank_certificate_load", cert_reader)):
        try:
            seq[n] = f(rep, us[n], us[n].fn, M)
            rep.ok("certificate-format", n, "%d items" % len(seq[n]))
        except Bad as e:
            rep.bad("certificate-format", n, n, str(e))
    if len(seq) < 2:
        return
    w, r = seq["spasm_rank_certificate_save"], seq["spasm_rank_certificate_load"]
    # the length is known before the arrays
    names = [CF[2] if x[0] == "hash" else CF[x[1]] for x in w]
    for k, f in CF.items():
        if names.count(f) == 1:
            rep.ok("certificate-fields", "spasm_rank_certificate_save", f)
        else:
            rep.bad("certificate-fields", "spasm_rank_certificate_save", "field:" + f, "field %s is written %d times" % (
                f, names.count(f)))
    if w == r:
        rep.ok("certificate-agree", "spasm_rank_certificate_save/load", str(names))
    else:
        d = next((k for k in range(max(len(w), len(r))) if k >= len(w) or k >= len(r) or w[k] != r[k]), 0)
        rep.bad("certificate-agree", "spasm_rank_certificate_load", "agree", "item %d differs: written %s, read %s" % (
            d, item(w, d), item(r, d)))
    for x in w:
        if x[0] == "arr" and (x[2], x[3]) != (C(0), ld(fld(CST, 0))):
            rep.bad("certificate-fields", "spasm_rank_certificate_save", "len:" + CF[x[1]],
                    "array %s is not written in full" % CF[x[1]])


def item(l, k):
    if k >= len(l):
        return "nothing"
    x = l[k]
    return "hash" if x[0] == "hash" else "%s %s" % (x[0], CF[x[1]]) + (
        " [%s, %s)" % (sym.show(x[2]), sym.show(x[3])) if x[0] == "arr" else "")


def check(b, rep):
    rep.expl = ("The event sequence (formats, arguments, loop ranges) of each writer is extracted from the control-flow graph "
                "and compared with the SMS format, respectively with the event sequence of the certificate reader; the SMS "
                "loader is simulated line by line.")
    rep.rule("header", "a saved matrix starts with `rows columns M'")
    rep.rule("entries", "every entry of the matrix is written exactly once as `row+1 column+1 value'")
    rep.rule("terminator", "a saved matrix ends with `0 0 0'")
    rep.rule("reader-header", "the dimensions read are those of the matrix; values are kept when a prime is given")
    rep.rule("reader-entry", "the entry added is (i-1, j-1, x) of the line just read, at full width")
    rep.rule("reader-once", "each line is stored exactly once; the end marker ends the file, and nothing else does")
    rep.rule("stored", "spasm_add_entry appends row, column and residue, dropping only zero values")
    rep.rule("certificate-format", "writer and reader of certificates have a recognisable format")
    rep.rule("certificate-fields", "every field of a certificate is written once and in full")
    rep.rule("certificate-agree", "the certificate reader expects what the writer writes, in the same order")
    M = b.lib()
    save_matrix(rep, *unit(M, "spasm_csr_save"), M, "spasm_csr", {"n": 1, "m": 2, "j": 4, "x": 5})
    save_matrix(rep, *unit(M, "spasm_triplet_save"), M, "spasm_triplet", {"n": 2, "m": 3, "j": 5, "x": 6})
    load_matrix(rep, *unit(M, "spasm_triplet_load"), M)
    add_entry(rep, *unit(M, "spasm_add_entry"), M)
    certificates(rep, b, M)


def unit(M, n):
    us = pts.units(M, [n])
    if not us:
        raise Broken("function %s not found" % n)
    return us[0], us[0].fn


if __name__ == "__main__":
    sys.exit(run("P13", check))
