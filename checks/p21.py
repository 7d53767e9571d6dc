"""P21: text is never written past its buffer nor read unwritten."""
from common import *
import re
import esp
import pts
import cfg
from effects import FORKS
from p12 import SCANF, fmt_of

BIG = 1 << 40
CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?((?:hh|h|ll|l|j|z|t|L)?)([a-zA-Z%])")
SCONV = re.compile(r"%(\*?)(\d*)((?:hh|h|ll|l|j|z|t|L)?)(\[\^?\]?[^\]]*\]|[a-zA-Z%])")
# library functions reading a string argument: name -> positions
STRARGS = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcasecmp": (0, 1), "strncasecmp": (0, 1),
           "strtoul": (0,), "strtol": (0,), "strtoll": (0,), "strtoull": (0,), "strtod": (0,), "atoi": (0,), "atol": (0,),
           "atoll": (0,), "puts": (0,), "fputs": (0,), "strchr": (0,), "strrchr": (0,), "strstr": (0, 1), "strdup": (0,),
           "strspn": (0, 1), "strcspn": (0, 1), "sscanf": (0,), "__isoc99_sscanf": (0,), "__isoc23_sscanf": (0,),
           "__isoc23_strtoul": (0,), "__isoc23_strtol": (0,), "__isoc23_strtoll": (0,), "strcpy": (1,), "strcat": (0, 1),
           "strncpy": (1,), "strncat": (0, 1), "stpcpy": (1,), "fopen": (0, 1), "perror": (0,), "strnlen": (0,)}
# formatted output: position of the format
PRINTF = {"printf": 0, "fprintf": 1, "snprintf": 2, "sprintf": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0, "dprintf": 1}
RAW = {"memcpy", "memmove", "memset", "fread"}
BYTES = {"memchr": (0,), "memcmp": (0, 1), "fwrite": (0,), "write": (1,), "spasm_SHA256_update": (1,)}


def literal(v):
    if v.kind == "global" and v.init is not None and v.init.kind == "str":
        s = v.init.val
        s = s.decode("latin1") if isinstance(s, bytes) else s
        return s.split("\0")[0]
    return None


def place(u, v):
    """[(root value, [(index value or int, scale)])] for a byte pointer; None where it is not a plain path"""
    v = u.resolve(v)
    off = []
    while True:
        if v.kind in ("inst", "cexpr") and v.op == "gep":
            t = v.srctype
            ops = v.ops[1:]
            m = re.match(r"\[(\d+) x i8\]$", t or "")
            if t == "i8" and len(ops) == 1:
                off.append(ops[0])
            elif m and len(ops) == 2 and ops[0].is_int() and ops[0].val == 0:
                off.append(ops[1])
            elif m and len(ops) == 1 and ops[0].is_int() and ops[0].val == 0:
                pass
            else:
                return v, off
            v = u.resolve(v.ops[0])
        elif v.kind == "inst" and v.op == "bitcast":
            v = u.resolve(v.ops[0])
        else:
            return v, off


def capacity(v):
    """size in bytes of the object v denotes, when it is fixed"""
    if v.kind == "inst" and v.op == "alloca":
        m = re.match(r"\[(\d+) x i8\]$", v.srctype or "")
        if v.ops and v.ops[0].is_int():
            k = v.ops[0].val
            if m:
                return int(m.group(1)) * k
            if v.srctype == "i8":
                return k
    if v.kind == "inst" and v.op == "call" and v.callee_name() in ("malloc", "spasm_malloc") and v.ops[0].is_int():
        return v.ops[0].val
    if v.kind == "inst" and v.op == "call" and v.callee_name() in ("calloc", "spasm_calloc") \
            and v.ops[0].is_int() and v.ops[1].is_int():
        return v.ops[0].val * v.ops[1].val
    if v.kind == "global" and getattr(v, "srctype", None):
        m = re.match(r"\[(\d+) x i8\]$", v.srctype)
        if m:
            return int(m.group(1))
    if v.kind == "inst" and v.op == "gep" and (v.srctype or "").startswith("%struct"):
        return None
    return None


class Text(esp.Client):
    """state: frozenset of roots holding a terminated string, ('w', root, k) single bytes set, ('raw', root)"""

    def __init__(self, ck, u, fn, start):
        self.ck, self.u, self.fn, self.start = ck, u, fn, start
        self.msgs = {}
        self.sites = {}
        self.rets = []
        self.forkstate = {}

    def say(self, rule, i, key, msg):
        self.msgs.setdefault((rule, i.loc, key), msg)

    def init(self, e, env):
        return [frozenset(self.start)]

    def key(self, q, env):
        return ()

    def call(self, e, i, env):
        n = i.callee_name()
        if n in ("strlen", "strnlen"):
            r, off = place(self.u, i.ops[0])
            c = self.size(r)
            return esp.iv(0, c - 1 if c else None)
        return None

    def size(self, r):
        return capacity(r)

    # ---- intervals --------------------------------------------------------
    def off(self, e, off, env):
        lo = hi = 0
        for o in off:
            x = e.val(o, env)
            if not x or x[0] != "i":
                return None, None
            lo = None if lo is None or x[1] is None else lo + x[1]
            hi = None if hi is None or x[2] is None else hi + x[2]
        return lo, hi

    def name(self, r):
        return str(getattr(r, "name", None) or "buffer").split(".")[0]

    # ---- obligations ------------------------------------------------------
    def write(self, e, env, i, dst, n, what):
        """n bytes (None: no bound) are written through dst"""
        self.sites[(i, what)] = ("fits", n)
        for r in self.roots(dst):
            r, off = r
            lo, hi = self.off(e, off, env)
            if r.kind == "arg" and r.fn is self.fn:
                if lo is None or lo < 0 or hi is None or n is None:
                    self.say("fits", i, what, "%s writes through argument %s without a bound" % (what, r.name))
                else:
                    k = r.fn.args.index(r)
                    w = self.ck.wr.setdefault(self.fn.name, {})
                    w[k] = max(w.get(k, 0), n + hi)
                continue
            c = self.size(r)
            if c is None:
                if self.arrayish(r):
                    continue
                self.say("fits", i, what, "%s writes into an object whose size is not known here" % what)
            elif n is None:
                self.say("fits", i, what, "%s puts a text of unbounded length into %s (%d bytes)" % (what, self.name(r), c))
            elif lo is None or lo < 0:
                self.say("fits", i, what, "%s may write before the start of %s" % (what, self.name(r)))
            elif hi is None or hi + n > c:
                self.say("fits", i, what, "%s writes up to %s bytes into %s, which has %d" % (
                    what, hi + n if hi is not None else "?", self.name(r), c))

    def arrayish(self, r):
        return False

    def roots(self, v):
        v = self.u.resolve(v)
        seen, st, out = set(), [v], []
        while st:
            x = st.pop()
            x = self.u.resolve(x)
            if x in seen:
                continue
            seen.add(x)
            if x.kind == "inst" and x.op == "phi":
                st.extend(a for a, _ in x.incoming)
                continue
            if x.kind == "inst" and x.op == "select":
                st.extend(x.ops[1:])
                continue
            if x.kind in ("null", "undef"):
                continue
            r, off = place(self.u, x)
            if r.kind == "inst" and r.op in ("phi", "select"):
                st.append(r)
                continue
            out.append((r, off))
        return out

    def text(self, r):
        return r in self.ck.texts.get(self.u, ())

    def use(self, q, i, v, what):
        for r, off in self.roots(v):
            if not self.text(r):
                continue
            self.sites[(i, what)] = ("filled", None)
            if r not in q:
                self.say("filled", i, what, "%s reads %s on a path where nothing was written to it" % (what, self.name(r)))

    def bound(self, v, e=None, env=None):
        """longest string v can be, without the terminator"""
        b = 0
        rs = self.roots(v)
        for r, off in rs:
            s = literal(r)
            if s is not None:
                b = max(b, len(s))
                continue
            c = self.size(r)
            if c is None:
                return None
            b = max(b, c - 1)
        return b if rs else None

    # ---- transfer ---------------------------------------------------------
    def inst(self, e, q, i, env):
        if i.op == "call":
            return self.docall(e, q, i, env)
        if i.op in ("load", "store") and (i.type if i.op == "load" else i.ops[0].type) == "i8":
            p = i.ops[0] if i.op == "load" else i.ops[1]
            return [(self.element(e, q, i, env, p), env)]
        return [(q, env)]

    def element(self, e, q, i, env, p):
        r, off = place(self.u, p)
        if r.kind == "inst" and r.op == "phi":
            self.walkptr(q, i, r)
            return q
        if not self.text(r):
            return q
        lo, hi = self.off(e, off, env)
        c = self.size(r)
        what = "character %s" % ("read" if i.op == "load" else "written")
        self.sites[(i, what)] = ("fits", 1)
        if c is not None and c > 1 or off:
            if self.sentinel(i, r, off):
                pass
            elif lo is None or lo < 0 or hi is None or hi >= (c or 0):
                self.say("fits", i, what, "%s at an index of %s that is not known to be inside its %s bytes" % (
                    what, self.name(r), c))
        if i.op == "load":
            one = lo is not None and lo == hi and ("w", r, lo) in q
            if r not in q and not one:
                self.say("filled", i, what, "%s from %s on a path where nothing was written to it" % (what, self.name(r)))
            return q
        if r in q:
            return q
        if lo is not None and lo == hi:
            v = i.ops[0]
            q = set(q) | {("w", r, lo)}
            if v.is_int() and v.val == 0:
                if ("raw", r) in q or all(("w", r, k) in q for k in range(lo)):
                    q = {x for x in q if not (isinstance(x, tuple) and x[1] is r)} | {r}
                else:
                    q.add(("z", r, lo))
            for x in list(q):
                if isinstance(x, tuple) and x[0] == "z" and x[1] is r and all(("w", r, k) in q for k in range(x[2])):
                    q.add(r)
            return frozenset(q)
        v = i.ops[0]
        if v.is_int() and v.val == 0 and ("raw", r) in q:
            return q | {r}
        return q

    def sentinel(self, i, r, off):
        """index counted up from 0 by 1, each step taken only after a non-zero character was seen at it"""
        if len(off) != 1:
            return False
        ph = off[0]
        while ph.kind == "inst" and ph.op in ("sext", "zext"):
            ph = ph.ops[0]
        if ph.kind != "inst" or ph.op != "phi":
            return False
        for v, b in ph.incoming:
            if v.is_int() and v.val == 0:
                continue
            if not (v.kind == "inst" and v.op == "add" and v.ops[0] is ph and v.ops[1].is_int() and v.ops[1].val == 1):
                return False
            if not self.nonzero_at(b, lambda p: place(self.u, p)[0] is r and len(place(self.u, p)[1]) == 1
                                   and self.strip(place(self.u, p)[1][0]) is ph):
                return False
        return True

    def strip(self, v):
        while v.kind == "inst" and v.op in ("sext", "zext"):
            v = v.ops[0]
        return v

    def walkptr(self, q, i, ph):
        """*p for p moved along a string"""
        for r, off in self.roots(ph):
            if not self.text(r):
                continue
            self.sites[(i, "walk")] = ("fits", 1)
            if r not in q:
                self.say("filled", i, "walk", "%s is walked on a path where nothing was written to it" % self.name(r))
        texts = [r for r, _ in self.roots(ph) if self.text(r)]
        if not texts:
            return
        for v, b in ph.incoming:
            v = self.u.resolve(v)
            r, off = place(self.u, v)
            if r is ph:
                if not (len(off) == 1 and off[0].is_int() and off[0].val == 1 and self.nonzero_at(
                        b, lambda p: self.u.resolve(p) is ph)):
                    self.say("fits", i, "walk", "%s is walked past characters not seen to be non-zero" % self.name(texts[0]))
            elif not (all(o.is_int() and o.val == 0 for o in off) and self.text(r)):
                self.say("fits", i, "walk", "%s is walked from an unknown place" % self.name(texts[0]))

    def nonzero_at(self, b, isaddr):
        """every path to the end of b took the non-zero branch of a test of the character at the address"""
        for x in self.fn.blocks:
            t = x.term
            if t.op != "br" or len(t.targets) != 2 or t.targets[0] is t.targets[1]:
                continue
            for k in (0, 1):
                s = t.targets[k]
                if not (s is b or cfg.dominates(s, b)) or len(s.preds) != 1:
                    continue
                if self.char_nonzero(t.ops[0], k == 0, isaddr):
                    return True
        return False

    def char_nonzero(self, c, truth, isaddr):
        if c.kind != "inst":
            return False
        if c.op == "icmp" and c.ops[1].is_int():
            v = c.ops[0]
            while v.kind == "inst" and v.op in ("sext", "zext", "trunc"):
                v = v.ops[0]
            if v.kind == "inst" and v.op == "load" and isaddr(v.ops[0]):
                k = c.ops[1].val
                return (c.pred, truth) in (("ne", True), ("eq", False)) and k == 0 or (c.pred, truth) in (
                    ("eq", True), ("ne", False)) and k != 0
        if c.op == "and" and truth or c.op == "or" and not truth:
            return any(self.char_nonzero(o, truth, isaddr) for o in c.ops)
        if c.op == "select":
            a, x, y = c.ops
            if truth and y.is_int() and y.val == 0:
                return self.char_nonzero(a, True, isaddr) or self.char_nonzero(x, True, isaddr)
            if not truth and x.is_int() and x.val != 0:
                return self.char_nonzero(a, False, isaddr) or self.char_nonzero(y, False, isaddr)
        return False

    def fill(self, q, v, raw=False):
        rs = [r for r, _ in self.roots(v)]
        q = set(q)
        for r in rs:
            if len(rs) == 1:
                q.add(("raw", r) if raw else r)
        return frozenset(q)

    def docall(self, e, q, i, env):
        n = i.callee_name() or ""
        ops = i.ops
        base = n.replace("__isoc99_", "").replace("__isoc23_", "")
        if n.startswith("llvm.mem"):
            n = n.split(".")[1]
        if n.startswith("llvm."):
            return [(q, env)]
        if n in FORKS:
            for k, o in enumerate(ops):
                if o.type == "ptr":
                    for r, _ in self.roots(o):
                        if self.text(r):
                            self.forkstate.setdefault(r, []).append(r in q)
            return [(q, env)]
        if n in STRARGS:
            for k in STRARGS[n]:
                self.use(q, i, ops[k], n)
        if n in BYTES:
            for k in BYTES[n]:
                self.use(q, i, ops[k], n)
        if n in PRINTF:
            f = literal(ops[PRINTF[n]])
            args = ops[PRINTF[n] + 1:]
            if f is None:
                self.use(q, i, ops[PRINTF[n]], n)
            length = 1 if f is not None else None
            pos = 0
            at = 0
            for m in CONV.finditer(f or ""):
                if length is not None:
                    length += m.start() - at
                at = m.end()
                fl, wd, pr, md, cv = m.groups()
                if cv == "%":
                    length = length + 1 if length is not None else None
                    continue
                for star in (wd, pr):
                    if star == "*":
                        pos += 1
                a = args[pos] if pos < len(args) else None
                pos += 1
                k = None
                if cv == "s" and a is not None:
                    self.use(q, i, a, "%s %%s" % n)
                    k = self.bound(a)
                    if pr and pr != "*":
                        k = int(pr) if k is None else min(k, int(pr))
                elif cv in "di":
                    k = {"hh": 4, "h": 6, "": 11}.get(md, 20)
                elif cv in "uoxX":
                    k = {"hh": 4, "h": 7, "": 13}.get(md, 24)
                elif cv == "c":
                    k = 1
                elif cv in "eE":
                    k = 9 + int(pr) if pr and pr != "*" else (14 if pr is None else None)
                elif cv in "fF":
                    k = 312 + int(pr) if pr and pr != "*" else (318 if pr is None else None)
                elif cv == "p":
                    k = 20
                if wd == "*" or pr == "*":
                    k = None
                elif wd and k is not None:
                    k = max(k, int(wd))
                length = None if length is None or k is None else length + k
            if length is not None:
                length += len(f) - at
            if n == "sprintf":
                self.write(e, env, i, ops[0], length, n)
                return [(self.fill(q, ops[0]), env)]
            if n == "snprintf":
                x = e.val(ops[1], env)
                hi = x[2] if x and x[0] == "i" else None
                lo = x[1] if x and x[0] == "i" else None
                if not self.isnull(ops[0]):
                    if hi is None and length is not None:
                        hi = length
                    self.write(e, env, i, ops[0], hi, n)
                    if lo is not None and lo >= 1:
                        q = self.fill(q, ops[0])
            return [(q, env)]
        if n in ("vsnprintf",):
            x = e.val(ops[1], env)
            self.write(e, env, i, ops[0], x[2] if x and x[0] == "i" else None, n)
            return [(self.fill(q, ops[0]), env)]
        if n in ("fgets",):
            x = e.val(ops[1], env)
            self.write(e, env, i, ops[0], x[2] if x and x[0] == "i" else None, n)
            e1, e2 = env.copy(), env.copy()
            e.setv(e1, i, ("p", frozenset([("buf", i.id)])))
            e.setv(e2, i, ("p", frozenset(["null"])))
            return [(self.fill(q, ops[0]), e1), (self.drop(q, ops[0]), e2)]
        if n in SCANF:
            return self.scan(e, q, i, env, n)
        if n in ("strcpy", "stpcpy"):
            k = self.bound(ops[1])
            self.write(e, env, i, ops[0], None if k is None else k + 1, n)
            return [(self.fill(q, ops[0]), env)]
        if n == "strcat":
            ks = [self.bound(o) for o in ops]
            self.write(e, env, i, ops[0], None if None in ks else sum(ks) + 1, n)
            return [(q, env)]
        if n == "strncpy":
            x = e.val(ops[2], env)
            self.write(e, env, i, ops[0], x[2] if x and x[0] == "i" else None, n)
            k = self.bound(ops[1])
            full = k is not None and x and x[0] == "i" and x[1] is not None and x[1] > k
            return [(self.fill(q, ops[0], raw=not full), env)]
        if n in RAW:
            r0 = [r for r, _ in self.roots(ops[0])]
            if any(self.text(r) for r in r0):
                j = {"fread": 2}.get(n, 2)
                x = e.val(ops[j], env)
                self.write(e, env, i, ops[0], x[2] if x and x[0] == "i" else None, n)
                if n == "memset":
                    z = ops[1].is_int() and ops[1].val == 0 and x and x[0] == "i" and (x[1] or 0) >= 1
                    return [(self.fill(q, ops[0], raw=not z), env)]
                if n in ("memcpy", "memmove"):
                    src = [r for r, _ in self.roots(ops[1])]
                    s = [literal(r) for r in src]
                    if s and all(t is not None for t in s):
                        tot = x and x[0] == "i" and x[1] is not None and all(x[1] > len(t) for t in s)
                        z = [k for r in src for k in ([r.init] if r.init is not None else [])]
                        return [(self.fill(q, ops[0], raw=not tot), env)]
                    if src and all(r.kind == "global" and r.init is not None and r.init.kind == "zero" for r in src):
                        return [(self.fill(q, ops[0]), env)]
                    return [(self.fill(q, ops[0], raw=True), env)]
                return [(self.fill(q, ops[0], raw=True), env)]
            return [(q, env)]
        # functions of this code base
        for k, o in enumerate(ops):
            if o.type != "ptr":
                continue
            for r, off in self.roots(o):
                w = self.ck.written(n).get(k)
                if w is not None:
                    lo, hi = self.off(e, off, env)
                    self.write(e, env, i, o, w, n)
                if self.text(r) and n not in STRARGS and n not in BYTES:
                    if k in self.ck.fills(n):
                        q = q | {r}
                    elif self.ck.known(n) and w is not None:
                        # it may or may not fill it: what it held before stays
                        pass
                    elif n not in ("free",):
                        self.use(q, i, o, n or "call")
        return [(q, env)]

    def isnull(self, v):
        return self.u.resolve(v).kind == "null"

    def drop(self, q, v):
        return frozenset(x for x in q if x not in [r for r, _ in self.roots(v)])

    def scan(self, e, q, i, env, n):
        f = fmt_of(i)
        args = i.ops[SCANF[n] + 1:]
        if f is None:
            self.say("fits", i, n, "the format is not a literal")
            return [(q, env)]
        src = None
        if n.endswith("sscanf"):
            src = self.bound(i.ops[0])
        pos = 0
        okq = set(q)
        lit = 0
        at = 0
        K = 0
        for m in SCONV.finditer(f):
            lit += len(re.sub(r"\s", "", f[at:m.start()]))
            at = m.end()
            star, wd, md, cv = m.groups()
            if cv == "%":
                lit += 1
                continue
            if star:
                continue
            a = args[pos] if pos < len(args) else None
            pos += 1
            if cv != "n":
                K += 1
            if a is None:
                continue
            if cv == "s" or cv[0] == "[":
                k = None if src is None else max(src - lit, 0) + 1
                if wd:
                    k = int(wd) + 1 if k is None else min(k, int(wd) + 1)
                self.write(e, env, i, a, k, n)
                rs = [r for r, _ in self.roots(a)]
                if len(rs) == 1:
                    okq.add(rs[0])
            elif cv == "c":
                self.write(e, env, i, a, int(wd or 1), n)
                rs = [r for r, _ in self.roots(a)]
                if len(rs) == 1:
                    okq |= {("raw", rs[0]), ("w", rs[0], 0)}
        e1, e2 = env.copy(), env.copy()
        e.setv(e1, i, esp.iv(K, K))
        e.setv(e2, i, esp.iv(-1, K - 1))
        if frozenset(okq) == q:
            return [(q, env)]
        return [(frozenset(okq), e1), (q, e2)]

    def ret(self, e, q, t, env):
        self.rets.append(q)


class Checker:
    def __init__(self, rep):
        self.rep = rep
        self.wr = {}
        self.fl = {}
        self.mods = []
        self.texts = {}
        self.done = set()
        self.busy = set()

    def add(self, M):
        us = {u.fn.name: u for u in pts.units(M) if not u.fn.name.startswith("spasm_SHA256")}
        self.mods.append(us)
        for u in us.values():
            self.texts[u] = self.find(u)
        return us

    def known(self, n):
        return any(n in us for us in self.mods)

    def written(self, n):
        self.ensure(n)
        return self.wr.get(n, {})

    def fills(self, n):
        self.ensure(n)
        return self.fl.get(n, ())

    def ensure(self, n):
        if n in self.done or n in self.busy:
            return
        for us in self.mods:
            if n in us:
                self.run(us[n])
                return

    def find(self, u):
        """objects (local arrays, arguments) handled as text"""
        T = Text(self, u, u.fn, ())
        out = set()

        def mark(v):
            for r, off in T.roots(v):
                if r.kind == "inst" and r.op == "alloca" and re.match(r"\[\d+ x i8\]$|i8$", r.srctype or "") or \
                        r.kind == "inst" and r.op == "call" and capacity(r) is not None:
                    out.add(r)
                if r.kind == "arg" and r.fn is u.fn and r.type == "ptr":
                    out.add(r)
        for i in u.insts():
            if i.op != "call":
                continue
            n = i.callee_name() or ""
            for k in STRARGS.get(n, ()):
                mark(i.ops[k])
            if n in ("snprintf", "sprintf", "fgets", "strcpy", "strcat", "strncpy", "vsnprintf", "stpcpy"):
                mark(i.ops[0])
            if n in PRINTF:
                f = literal(i.ops[PRINTF[n]])
                pos = PRINTF[n] + 1
                for m in CONV.finditer(f or ""):
                    if m.group(5) == "%":
                        continue
                    pos += (m.group(2) == "*") + (m.group(3) == "*")
                    if m.group(5) == "s" and pos < len(i.ops):
                        mark(i.ops[pos])
                    pos += 1
            if n in SCANF:
                f = fmt_of(i)
                pos = SCANF[n] + 1
                for m in SCONV.finditer(f or ""):
                    if m.group(1) or m.group(4) == "%":
                        continue
                    if m.group(4)[0] in "sc[" and pos < len(i.ops):
                        mark(i.ops[pos])
                    pos += 1
            if n == "spasm_human_format":
                mark(i.ops[1])
        return out

    def run(self, u):
        n = u.fn.name
        self.busy.add(n)
        args = [a for a in u.fn.args if a in self.texts[u]]
        writes_arg = set()
        T0 = Text(self, u, u.fn, ())
        for i in u.insts():
            if i.op == "call" and i.callee_name() in ("snprintf", "sprintf", "fgets", "strcpy", "strncpy", "vsnprintf"):
                for r, _ in T0.roots(i.ops[0]):
                    writes_arg.add(r)
            elif i.op == "call" and not (i.callee_name() or "").startswith("llvm."):
                for k in self.written(i.callee_name() or ""):
                    if k < len(i.ops):
                        for r, _ in T0.roots(i.ops[k]):
                            writes_arg.add(r)
            elif i.op == "store" and i.ops[0].type == "i8":
                for r, _ in T0.roots(i.ops[1]):
                    if r.kind == "arg":
                        writes_arg.add(r)
        ins = {a for a in args if a not in writes_arg}      # strings handed in
        outs = [a for a in args if a in writes_arg]
        state = {}
        if not any(self.texts[u]):
            self.busy.discard(n)
            self.done.add(n)
            return
        for fn in u.fns:
            st = set(ins) | {r for r, v in state.items() if all(v)}
            st |= {a for a in fn.args if fn is not u.fn}
            T = Text(self, u, fn, st)
            e = esp.Esp(u, fn, T, max_states=200).run()
            if e.overflow:
                self.rep.bad("filled", fn.name, fn.name, "not decided: too many states")
            for r, v in T.forkstate.items():
                state.setdefault(r, []).extend(v)
            if fn is u.fn:
                self.fl[n] = {u.fn.args.index(a) for a in outs if T.rets and all(a in q for q in T.rets)}
                for a in outs:
                    if T.rets and not all(a in q for q in T.rets) and any(a in q for q in T.rets) \
                            and not any(t.op == "ret" and t.ops for bb in u.fn.blocks for t in [bb.term]):
                        self.rep.bad("filled", n, "%s:%s" % (n, a.name),
                                     "%s returns on some path without writing a terminated string to %s" % (n, a.name))
            for (rule, loc, key), m in T.msgs.items():
                self.rep.bad(rule, loc, "%s:%s" % (fn.name, key), m)
            bad = {(r, l) for r, l, k in T.msgs}
            for (i, what), (rule, k) in T.sites.items():
                if (rule, i.loc) not in bad:
                    self.rep.ok(rule, i.loc, "%s: %s%s" % (fn.name, what, ", at most %d bytes" % k if k else ""))
        self.busy.discard(n)
        self.done.add(n)


def check(b, rep):
    rep.expl = ("Path-sensitive simulation (strings written / intervals of lengths and indices, helpers inlined) of every "
                "function of the library and the tools that formats, reads or scans text: destination and capacity of "
                "each write, callees' writes through their arguments charged to every caller's buffer, and the "
                "state of each buffer at every place that reads it as a string.")
    rep.rule("fits", "every write of text (formatting, line reads, %s conversions, copies, single characters) stays inside the "
             "array it goes to; the number of bytes a function writes through an argument is bounded and no caller "
             "passes a smaller array")
    rep.rule("filled", "on every path to a place that reads a buffer as text the buffer was given a terminated string; a "
             "failed line read or an incomplete conversion does not count; functions that fill a caller's buffer do so on "
             "every path")
    ck = Checker(rep)
    M = b.lib()
    mods = [ck.add(M)]
    for t in b.tool_names():
        mods.append(ck.add(b.tool(t)))
    for us in mods:
        for n, u in us.items():
            if n not in ck.done:
                ck.run(u)
    rep.need("fits", 15)
    rep.need("filled", 15)


if __name__ == "__main__":
    sys.exit(run("P21", check))
