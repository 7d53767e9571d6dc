"""P12: malformed or truncated input is refused."""
from common import *
import nest
import pts
import cfg
import esp
import sym
from ranges import facts, edge_facts, loop_ranges, every_trip
from sym import walk, add, C, to_poly

SCANF = {"sscanf": 1, "fscanf": 1, "scanf": 0, "__isoc99_sscanf": 1, "__isoc99_fscanf": 1, "__isoc99_scanf": 0,
         "__isoc23_sscanf": 1, "__isoc23_fscanf": 1, "__isoc23_scanf": 0}
LINE = {"fgets": 0}
QUIET = {"fprintf", "printf", "fputs", "fputc", "puts", "putc", "warn", "warnx", "fflush", "perror", "vfprintf", "fwrite",
         "err", "errx", "verr", "verrx", "exit", "abort", "__assert_fail", "feof", "ferror", "fclose", "free", "strlen",
         "memchr", "strchr", "strrchr", "spasm_wtime", "spasm_human_format", "spasm_csr_free", "spasm_triplet_free",
         "spasm_lu_free"}


def fmt_of(i):
    f = i.ops[SCANF[i.callee_name()]]
    if f.kind == "global" and f.init is not None and f.init.kind == "str":
        s = f.init.val
        return s.decode("latin1") if isinstance(s, bytes) else s
    return None


def conversions(fmt):
    """conversions that store something, in order: list of (text)"""
    out = []
    for m in re.finditer(r"%(\*?)(\d*)((?:hh|h|ll|l|j|z|t|L)?)(\[\^?\]?[^\]]*\]|[a-zA-Z%])", fmt):
        if m.group(1) or m.group(4) in ("%", "n"):
            continue
        out.append(m.group(3) + m.group(4))
    return out


def is_fn_success(kind, e, t, env):
    """may this return report success?"""
    if not t.ops:
        return True
    v = e.val(t.ops[0], env)
    if kind == "ptr":
        return not (v and v[0] == "p" and v[1] == frozenset(["null"]))
    if kind == "main":
        return v is None or v[0] != "i" or (v[1] is None or v[1] <= 0) and (v[2] is None or v[2] >= 0)
    return v is None or v[0] != "i" or not (v[1] == 0 and v[2] == 0)


class Base(esp.Client):
    def __init__(self, rep, u, fn, S, where):
        self.rep, self.u, self.fn, self.S, self.where = rep, u, fn, S, where
        self.msgs = {}
        self.seen = {}
        t = fn.rettype if hasattr(fn, "rettype") else None
        self.kind = "main" if fn.name == "main" else ("ptr" if any(
            b.term.op == "ret" and b.term.ops and b.term.ops[0].type == "ptr" for b in fn.blocks) else "bool")

    def say(self, rule, key, i, msg):
        self.msgs.setdefault((rule, key, i.loc), msg)

    def init(self, e, env):
        return [frozenset()]

    def key(self, q, env):
        out = []
        for v, x in env.v.items():
            if getattr(v, "kind", None) == "inst" and v.op in ("phi", "select") and v.type in ("i1", "i8") \
                    and x and x[0] == "i" and x[1] is not None and x[1] == x[2]:
                out.append((v.id, x[1]))
            elif v.op == "phi" and x and x[0] == "i" and x[1] == x[2] and x[1] is not None and self.flag(v):
                out.append((v.id, x[1]))
        return tuple(sorted(out, key=str))

    def flag(self, v):
        # integer variables only ever set to constants are flags too
        c = self.__dict__.setdefault("_flag", {})
        if v not in c:
            seen, st, ok = set(), [v], True
            while st and ok:
                x = st.pop()
                if x in seen or x.kind == "int":
                    continue
                seen.add(x)
                if x.kind == "inst" and x.op in ("phi",):
                    st.extend(a for a, _ in x.incoming)
                elif x.kind == "inst" and x.op in ("select",):
                    st.extend(x.ops[1:])
                elif x.kind == "inst" and x.op in ("zext", "icmp") and (x.op == "icmp" or x.ops[0].type == "i1"):
                    pass
                else:
                    ok = False
            c[v] = ok
        return c[v]

    def targets(self, i):
        return [self.S.t(o) for o in i.ops[SCANF[i.callee_name()] + 1:]]


class Reader(Base):
    """items: ('short', site) failed conversion; ('eof', buf) failed line read; ('unchk', buf) completeness of the
    line not yet established; 'announced'; 'scan' an entry was converted; ('z', k); 'marker'; 'count'; 'pend'"""

    def __init__(self, rep, u, fn, S, where, entry=(), header=()):
        Base.__init__(self, rep, u, fn, S, where)
        self.entry = entry            # scanf sites delivering an entry
        self.header = header          # scanf sites announcing a number of entries: site -> term of the number
        self.counters = set()
        self.result = bool(entry)

    def mentions(self, t, site):
        tg = set(self.targets(site))
        return any(x[0] == "ld" and (x[1] in tg or sym.el_split(x[1])[0] in tg) for x in walk(t)
                   if isinstance(x, tuple) and x and x[0] == "ld")

    def fork(self, e, q, i, env):
        """a condition that is stored away: decide it here, so that the state remembers what it implies"""
        out = []
        for k in (1, 0):
            e1 = env.copy()
            if e.refine(e1, i, bool(k)):
                s = set(q)
                for f in facts(self.S.cond(self.S.t(i)), bool(k)):
                    self.fact(f, s)
                self.settle(s)
                out.append((frozenset(s), e1))
        return out or [(q, env)]

    def inst(self, e, q, i, env):
        op = i.op
        if op == "icmp" and env.v.get(i) not in (esp.iv(0, 0), esp.iv(1, 1)) \
                and any(x.op != "br" for x in i.uses):
            return self.fork(e, q, i, env)
        if op == "call":
            n = i.callee_name()
            if n in SCANF:
                return self.scan(e, q, i, env)
            if n in LINE:
                return self.line(e, q, i, env)
            q = self.sinks(e, q, i, env, n)
        elif op == "store":
            for it in q:
                if it[0] == "short" and self.mentions(self.S.t(i.ops[0]), it[1]):
                    ls = self.u.of(i.ops[1])
                    if not all(r[0] == "alloca" for r, _ in ls):
                        self.say("conversions-checked", "store", i,
                                 "a value of the line parsed at %s is stored although the conversion failed" % it[1].loc)
        elif op == "load":
            b = sym.el_split(self.S.t(i.ops[0]))[0]
            if ("eof", b) in q:
                self.say("no-use-after-eof", "load", i, "the buffer is inspected although nothing was read")
        return [(q, env)]

    def scan(self, e, q, i, env):
        f = fmt_of(i)
        if f is None:
            raise Broken("format of %s is not a literal" % i.loc)
        cv = conversions(f)
        K = len(cv)
        self.seen[i] = K
        if i.callee_name().endswith("sscanf"):
            b = self.S.t(i.ops[0])
            if ("eof", b) in q:
                self.say("no-use-after-eof", "scan", i, "the buffer is parsed although nothing was read")
            if ("unchk", b) in q:
                self.say("no-partial-line", "scan", i, "a line is parsed although it may have been cut at the buffer size")
        for it in q:
            if it[0] == "short" and it[1] is not i:
                for o in i.ops[SCANF[i.callee_name()] + 1:]:
                    if self.mentions(self.S.t(o), it[1]):
                        self.say("conversions-checked", "addr", i, "address depends on an unchecked conversion")
        if "pend" in q:
            self.say("entry-kept", "lost", i, "an entry is parsed over one that was never added")
        good = frozenset(x for x in q if not (isinstance(x, tuple) and x[0] == "z") and x not in ("scan", "pend"))
        e1, e2 = env.copy(), env.copy()
        e.setv(e1, i, esp.iv(K, K))
        e.setv(e2, i, esp.iv(-1, K - 1))
        g = set(good)
        if i in self.entry:
            g |= {"scan", "pend"}
        if i in self.header:
            g.add("announced")
        return [(frozenset(g), e1), (good | {("short", i)}, e2)]

    def line(self, e, q, i, env):
        b = self.S.t(i.ops[LINE[i.callee_name()]])
        self.seen[i] = 1
        base = frozenset(x for x in q if x not in (("eof", b), ("unchk", b)))
        e1, e2 = env.copy(), env.copy()
        e.setv(e1, i, ("p", frozenset([("buf", i.id)])))
        e.setv(e2, i, ("p", frozenset(["null"])))
        bad = {("eof", b)}
        if not self.result:
            bad.add(("short", i))
        return [(base | {("unchk", b)}, e1), (base | bad, e2)]

    def sinks(self, e, q, i, env, n):
        if n is None or n.startswith("llvm."):
            return q
        if n == "spasm_add_entry":
            if "pend" in q and "scan" in q:
                q = q - {"pend"}
            elif self.result:
                self.say("entry-kept", "twice", i, "an entry is added that does not come from a freshly parsed line")
        if n not in QUIET:
            for it in q:
                if it[0] == "short" and it[1].op == "call" and it[1].callee_name() in SCANF:
                    for o in i.ops:
                        if self.mentions(self.S.t(o), it[1]):
                            self.say("conversions-checked", n, i, "a value of the line parsed at %s is passed to %s "
                                     "although the conversion failed" % (it[1].loc, n))
        for o in i.ops:
            if o.type == "ptr":
                b = sym.el_split(self.S.t(o))[0]
                if ("eof", b) in q and n not in LINE:
                    self.say("no-use-after-eof", n, i, "the buffer is passed to %s although nothing was read" % n)
                if ("unchk", b) in q and n in ("spasm_SHA256_update", "strtoul", "strtol", "strtoll", "atoi", "atoll"):
                    self.say("no-partial-line", n, i, "a line is used although it may have been cut at the buffer size")
        return q

    def edge(self, e, q, b, s, env):
        t = b.term
        if t.op != "br" or len(t.targets) != 2 or t.targets[0] is t.targets[1]:
            return q
        k = 0 if t.targets[0] is s else 1
        out = set(q)
        for f in edge_facts(self.S, b, k):
            self.fact(f, out)
        self.settle(out)
        return frozenset(out)

    def settle(self, out):
        if all(("z", k) in out for k in range(3)) and "scan" in out:
            out.add("marker")
            out.discard("pend")

    def fact(self, f, out):
        if f[0] == "or":
            alts = []
            for x in f[1:]:
                o = set(out)
                for y in facts(x):
                    self.fact(y, o)
                alts.append(o)
            keep = set.intersection(*alts)
            out.clear()
            out |= keep
            # what some alternative could not discard stays
            for o in alts:
                out |= {x for x in o if isinstance(x, tuple) and x[0] in ("unchk", "short", "eof") or x == "pend"}
            return
        if f[0] == "eq0":
            d = f[1]
            for x in [y for y in out if isinstance(y, tuple) and y[0] == "unchk"]:
                if any(a[0] == "ld" and sym.el_split(a[1])[0] == x[1] for a in walk(d) if a and a[0] == "ld") \
                        and to_poly(d)[1] in (10, -10):
                    out.discard(x)
                elif d[0] == "poly" and len(d[1]) == 1 and d[1][0][0][0][0] == "call" and d[1][0][0][0][1] == "strlen" \
                        and self.S.t(d[1][0][0][0][2].ops[0]) == x[1] and abs(d[2]) > 0:
                    out.discard(x)
        if f[0] == "ne0":
            d = f[1]
            c = None
            if d[0] == "call":
                c = d
            elif d[0] == "pdiff":
                c = d[1] if d[1][0] == "call" else d[2]
                if ("null",) not in d[1:]:
                    c = None
            if c is not None and c[0] == "call":
                if c[1] == "feof":
                    for x in [y for y in out if isinstance(y, tuple) and y[0] == "unchk"]:
                        out.discard(x)
                elif c[1] in ("strchr", "memchr", "strrchr", "rawmemchr") and c[2].ops[1].is_int() and c[2].ops[1].val == 10:
                    out.discard(("unchk", self.S.t(c[2].ops[0])))
        if "scan" in out and f[0] == "eq0":
            for site in self.entry:
                for k, a in enumerate(self.targets(site)):
                    d = f[1]
                    if d == ("ld", a):
                        out.add(("z", k))
                    elif d[0] == "op" and d[1] == "or":
                        st = [d]
                        while st:
                            x = st.pop()
                            if x[0] == "op" and x[1] == "or":
                                st += x[2:]
                            elif x == ("ld", a):
                                out.add(("z", k))
        if "announced" in out:
            for cnt in self.header.values():
                # counter - announced == 0, or announced - counter - 1 < 0
                d = f[1] if f[0] in ("eq0", "lt0") else None
                if d is None:
                    continue
                for other, sg in ((add(d, cnt), 1), (add(cnt, d, -1), -1)):
                    # d = other - cnt     or    d = cnt - other
                    if f[0] == "lt0":
                        if sg == 1:
                            continue
                        other = add(other, C(-1))
                        # d = cnt - o - 1 < 0  ->  o >= cnt ; other computed as cnt - d - 1 ... normalise
                        other = add(add(cnt, d, -1), C(-1))
                    if self.is_counter(other):
                        out.add("count")

    def is_counter(self, t):
        if t[0] == "ld" and t[1][0] == "fld" and t[1][2].endswith("spasm_triplet") and t[1][3] == 1:
            return True
        if t[0] == "sel":
            return self.is_counter(t[2]) and self.is_counter(t[3])
        d, k = to_poly(t)
        if len(d) != 1 or k not in (0, 1):
            return False
        (m, c), = d.items()
        if c != 1 or len(m) != 1 or m[0][0] not in ("phi",):
            return False
        ok = self.counter_ok(m[0][1])
        return ok

    def counter_ok(self, ph):
        """every increment is by one and control-equivalent to an added entry; every start value is 0"""
        c = self.__dict__.setdefault("_ctr", {})
        if ph in c:
            return c[ph]
        adds = [i for i in self.fn.calls("spasm_add_entry")]
        seen, st, ok, incs = set(), [ph], True, []
        while st and ok:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.kind == "int":
                ok = x.val == 0
            elif x.kind == "inst" and x.op == "phi":
                st.extend(a for a, _ in x.incoming)
            elif x.kind == "inst" and x.op == "select":
                ok = False
            elif x.kind == "inst" and x.op == "add" and x.ops[1].is_int():
                ok = x.ops[1].val == 1
                incs.append(x)
                st.append(x.ops[0])
            else:
                ok = False
        if ok:
            for x in incs:
                if not any(equivalent(x.block, a.block) for a in adds):
                    ok = False
            for a in adds:
                if not any(equivalent(x.block, a.block) for x in incs):
                    ok = False
        ok = ok and bool(incs)
        c[ph] = ok
        return ok

    def ret(self, e, q, t, env):
        if not is_fn_success(self.kind, e, t, env):
            return
        for it in q:
            if isinstance(it, tuple) and it[0] == "short":
                self.say("conversions-checked", "return", it[1],
                         "success can be reported at %s although %s at %s failed or was short" % (
                             t.loc, it[1].callee_name(), it[1].loc))
            if isinstance(it, tuple) and it[0] == "unchk" and not self.result:
                self.say("no-partial-line", "return", t, "success is reported although a line may be cut or incomplete")
        if self.result:
            if "announced" in q:
                if "count" not in q:
                    self.say("all-entries", "count", t, "the matrix is returned before the announced number of entries "
                             "has been read")
            elif "marker" not in q:
                self.say("all-entries", "marker", t, "the matrix is returned although the end marker 0 0 0 was not seen")
            if "pend" in q:
                self.say("entry-kept", "lost", t, "the last parsed entry is never added")


def equivalent(a, b):
    return (cfg.dominates(a, b) and cfg.postdominates(b, a)) or (cfg.dominates(b, a) and cfg.postdominates(a, b))


class Tool(Base):
    """a tool must not go on after the certificate loader reported failure"""

    def call(self, e, i, env):
        return None

    def inst(self, e, q, i, env):
        n = i.callee_name() if i.op == "call" else None
        if n == "spasm_rank_certificate_load":
            self.seen[i] = 1
            e1, e2 = env.copy(), env.copy()
            e.setv(e1, i, esp.iv(1, 1))
            e.setv(e2, i, esp.iv(0, 0))
            return [(q, e1), (q | {"bad"}, e2)]
        if "bad" in q and n:
            if n == "exit" and is_zero(e.val(i.ops[0], env)):
                self.say("loader-verdict", "exit", i, "the tool exits with status 0 after a certificate was refused")
            if n == "spasm_certificate_rank_verify":
                self.say("loader-verdict", "use", i, "a refused certificate is used")
        return [(q, env)]

    def ret(self, e, q, t, env):
        if "bad" in q and is_fn_success("main", e, t, env):
            self.say("loader-verdict", "return", t, "the tool returns 0 after a certificate was refused")


def is_zero(v):
    return v is None or v[0] != "i" or ((v[1] is None or v[1] <= 0) and (v[2] is None or v[2] >= 0))


def run_client(rep, cl, fn, u):
    e = esp.Esp(u, fn, cl, max_states=600).run()
    if e.overflow:
        raise Broken("state explosion in " + fn.name)
    for (rule, key, loc), m in cl.msgs.items():
        rep.bad(rule, loc, "%s:%s" % (fn.name, key), m)
    return e


def check(b, rep):
    rep.expl = ("Property simulation (typestate x interval environment, helpers inlined) of every function that parses "
                "input: each scanf-family call is split into 'all items converted' and 'some item missing', each line "
                "read into success and failure; the missing/failed states must end in an error, and a matrix may only "
                "be returned after the announced count or the end marker was established on the path.")
    rep.rule("conversions-checked", "no success return, library call or store of parsed values in the state where fewer "
             "items than the format asks for were converted, or the line read failed")
    rep.rule("no-use-after-eof", "the line buffer is not used on the path where reading it failed")
    rep.rule("no-partial-line", "a line is parsed only after its end ('\\n', end of file, or exact length) was established")
    rep.rule("all-entries", "the matrix loader returns only with the announced count reached, or the three items of an "
             "entry line found zero")
    rep.rule("entry-kept", "each fully parsed entry line other than the end marker is added exactly once")
    rep.rule("certificate-arrays", "each array of the certificate is read over its whole announced length")
    rep.rule("positions-nonnegative", "row and column numbers of an entry are known to be >= 0 where they are stored")
    rep.rule("loader-verdict", "tools stop with a non-zero status when the certificate loader refuses")
    rep.rule("header-words", "a MatrixMarket matrix is built only when the four words of the header were found to be the supported ones")
    mm_header(rep, b.lib(omp=False))
    M = b.lib()
    n = 0
    for u in pts.units(M):
        for fn in u.fns:
            scans = [i for i in fn.calls() if i.callee_name() in SCANF]
            lines = [i for i in fn.calls() if i.callee_name() in LINE]
            if not scans and not lines:
                continue
            S = sym.Sym(u, M)
            entry, header = (), {}
            if any(fn.calls("spasm_add_entry")):
                entry, header = classify(fn, S, scans)
                if not entry:
                    raise Broken("no parsed line feeds spasm_add_entry in " + fn.name)
            cl = Reader(rep, u, fn, S, fn.name, entry, header)
            run_client(rep, cl, fn, u)
            for i, k in cl.seen.items():
                rep.ok("conversions-checked", i.loc, "%s: %s, %d items" % (fn.name, i.callee_name(), k))
                if i.callee_name() in LINE:
                    rep.ok("no-use-after-eof", i.loc, fn.name)
                    rep.ok("no-partial-line", i.loc, fn.name)
                n += 1
            for i in scans + lines:
                if i not in cl.seen and cfg.dominates(fn.entry, i.block):
                    raise Broken("%s not reached by the analysis" % i.loc)
            if entry:
                rep.ok("all-entries", fn.name, "%d entry sites, %d announcing headers" % (len(entry), len(header)))
                rep.ok("entry-kept", fn.name)
            if fn.name == "spasm_rank_certificate_load":
                arrays(rep, fn, u, S, scans)
    for u in pts.units(M, ["spasm_add_entry"]):
        nonneg(rep, u, sym.Sym(u, M))
    rep.need("positions-nonnegative", 2)
    rep.need("conversions-checked", 8)
    rep.need("all-entries", 1)
    rep.need("certificate-arrays", 4)
    for t in b.tool_names():
        M = b.tool(t)
        for u in pts.units(M):
            for fn in u.fns:
                if any(fn.calls("spasm_rank_certificate_load")):
                    cl = Tool(rep, u, fn, sym.Sym(u, M), t)
                    run_client(rep, cl, fn, u)
                    rep.ok("loader-verdict", t)
                elif any(i.callee_name() in SCANF or i.callee_name() in LINE for i in fn.calls()):
                    cl = Reader(rep, u, fn, sym.Sym(u, M), t)
                    run_client(rep, cl, fn, u)
    rep.need("loader-verdict", 1)


WORDS = ("matrix", "coordinate", "integer", "general")


def const_text(v):
    if v.kind == "global" and v.init is not None and v.init.kind == "str":
        s = v.init.val
        s = s.decode("latin1") if isinstance(s, bytes) else s
        return s.rstrip("\0")
    return None


def mm_header(rep, M):
    """the four words of a MatrixMarket header: the matrix is built only when each was found to be the expected one"""
    for u in pts.units(M, ["spasm_triplet_load"]):
        S = sym.Sym(u, M)
        T = nest.Tree(u, u.fn, S, lambda c: None, lambda t: None)
        T.limit = 20000
        for p in T.top():
            scan = [e for e in p.calls(*SCANF) if (fmt_of(e[3]) or "").startswith("%%%%MatrixMarket")]
            if not scan or not p.calls("spasm_triplet_alloc"):
                continue
            bufs = [S.t(v) for v in scan[0][3].ops[SCANF[scan[0][1]] + 1:] if v.type == "ptr"]
            bufs = [x for x in bufs if x[0] not in ("glob", "fn")][:len(conversions(fmt_of(scan[0][3])))]
            if len(bufs) != 4:
                rep.bad("header-words", scan[0][3].loc, "header-words", "the MatrixMarket header is not read as four words")
                continue
            for b, w in zip(bufs, WORDS):
                cmps = [e for e in p.calls("strcmp", "strcasecmp") if S.t(e[3].ops[0]) == b or S.t(e[3].ops[1]) == b]
                if not cmps:
                    if any(cfg.innermost_loop(i.block) for i in u.fn.calls("strcmp", "strcasecmp")):
                        rep.assumptions.append("header words are compared in a loop: not decided")
                        continue
                    rep.bad("header-words", scan[0][3].loc, "header-words:" + w,
                            "a MatrixMarket header is accepted without comparing its word with \"%s\"" % w)
                    continue
                good = [e for e in cmps if ("eq0", S.t(e[3])) in p.facts and w in [const_text(v) for v in e[3].ops[:2]]]
                if not good:
                    rep.bad("header-words", cmps[0][3].loc, "header-words:" + w,
                            "a MatrixMarket header is accepted on a path where its word was not found equal to \"%s\"" % w)
                else:
                    rep.ok("header-words", good[0][3].loc, w)


def nonneg(rep, u, S):
    """row and column numbers are stored in a triplet list only where they are known to be >= 0"""
    for i in u.insts():
        if i.op != "store":
            continue
        base, idx = sym.el_split(S.t(i.ops[1]))
        if base[0] == "ld" and base[1][0] == "fld" and base[1][2].endswith("spasm_triplet") and base[1][3] in (4, 5):
            v = S.t(i.ops[0])
            ok = False
            for c, truth, t in cfg.dominating_conditions(i.block):
                if isinstance(c, tuple):
                    continue
                for f in facts(S.cond(S.t(c)), truth):
                    if f[0] == "lt0" and add(f[1], v) == C(-1):
                        ok = True
            if ok:
                rep.ok("positions-nonnegative", i.loc, sym.show(v))
            else:
                rep.bad("positions-nonnegative", i.loc, "field%d" % base[1][3], "a row or column number that may be "
                        "negative is stored")


def classify(fn, S, scans):
    adds = list(fn.calls("spasm_add_entry"))
    entry, header = [], {}
    for s in scans:
        f = fmt_of(s)
        if f is None:
            raise Broken("format of %s is not a literal" % s.loc)
        tg = [S.t(o) for o in s.ops[SCANF[s.callee_name()] + 1:]]
        if len(tg) < 3:
            continue
        fed = [a for a in adds if any(x == ("ld", tg[2]) for x in walk(S.t(a.ops[3])))
               and cfg.path_inst(s, a, lambda i: i is not s and i.op == "call" and i.callee_name() in SCANF)]
        if fed:
            entry.append(s)
        elif len(conversions(f)) == 3 and conversions(f)[2].lstrip("hljzt") in ("d", "i", "u"):
            header[s] = ("ld", tg[2])
    return entry, header


def arrays(rep, fn, u, S, scans):
    """every array field of the certificate is scanned over [0, r)"""
    done = {}
    rs = {("ld", ("fld", ("arg", 1), "spasm_rank_certificate", 0))}
    for s in scans:
        for o in s.ops[2:]:
            t = S.t(o)
            base, idx = sym.el_split(t)
            if base[0] in ("al", "glob") and idx == C(0):
                # the variable the announced rank was read into
                for i in fn.insts():
                    if i.op == "store" and S.t(i.ops[1]) == ("fld", ("arg", 1), "spasm_rank_certificate", 0) and \
                            S.t(i.ops[0]) == ("ld", base):
                        rs.add(("ld", base))
    for s in scans:
        for o in s.ops[2:]:
            base, idx = sym.el_split(S.t(o))
            fields = {p[-2][2] if p[-1] == "*" else p[-1][2] for r, p in u.of(o)
                      if len(p) >= 2 and p[-1] == "*" and p[-2][0] == "f"}
            # arrays freshly allocated and stored in a field
            for i in fn.insts():
                if i.op == "store" and i.ops[0].type == "ptr" and S.t(i.ops[0]) == base:
                    a = S.t(i.ops[1])
                    if a[0] == "fld" and a[1] == ("arg", 1):
                        fields.add(a[3])
            if base[0] == "ld" and base[1][0] == "fld":
                fields.add(base[1][3])
            L = cfg.innermost_loop(s.block)
            if L is None or not fields:
                continue
            for r in loop_ranges(S, L):
                if idx == r.term and r.lo == C(0) and r.hi in rs and every_trip(s.block, L):
                    for k in fields:
                        done[k] = s
    for k, name in ((3, "i"), (4, "j"), (5, "x"), (6, "y")):
        if k in done:
            rep.ok("certificate-arrays", done[k].loc, name)
        else:
            rep.bad("certificate-arrays", fn.name, name,
                    "array %s of the certificate is not read over its whole length 0..r" % name)


if __name__ == "__main__":
    sys.exit(run("P12", check))
