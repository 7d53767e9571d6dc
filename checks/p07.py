"""P07: entry counts, entry positions and the modulus are carried in 64 bits."""
from common import *
import re
import pts
import cfg
from sym import Sym, walk, add, C

CSR, TRI, FIELD, CERT = "struct.spasm_csr", "struct.spasm_triplet", "struct.spasm_field_struct", \
    "struct.spasm_rank_certificate"
# 64-bit quantities held by the data structures: (struct, field) -> how
WIDE_AT = {(CSR, 0): "nzmax", (TRI, 0): "nzmax", (TRI, 1): "nz"}
ENTRY = {(CSR, 4), (CSR, 5), (TRI, 4), (TRI, 5), (TRI, 6)}
# arguments (by position) that carry a number of entries or the modulus
WIDE_ARGS = {"spasm_csr_alloc": (2, 3), "spasm_csr_realloc": (1,), "spasm_triplet_alloc": (2, 3),
             "spasm_triplet_realloc": (1,), "spasm_triplet_load": (1,), "spasm_field_init": (0,),
             "spasm_datatype_choose": (0,), "spasm_ffpack_rref": (0,), "spasm_ffpack_LU": (0,),
             "spasm_prng_seed": (1,), "spasm_human_format": (0,), "spasm_prng_seed_simple": (0,)}
WIDE_RET = {"spasm_nnz", "spasm_get_prime"}
# arithmetic on residues and the generator (whose documented state holds the modulus as an unsigned 32-bit word)
EXEMPT = re.compile(r"spasm_(SHA256_|prng_)")
RESIDUES = re.compile(r"spasm_(ZZp_|field_init)")


def isz(t):
    return t in ("i8", "i16", "i32")


class Taint:
    def __init__(self, u, M, S):
        self.u, self.M, self.S = u, M, S
        self.v = {}          # value -> why it is wide
        self.mem = {}        # location -> why
        self.solve()

    def loc_kind(self, l):
        path = l[1]
        if not path:
            return None
        if path[-1] == "*":
            if len(path) > 1 and path[-2][0] == "f":
                return ("in", path[-2][1], path[-2][2])
            return None
        if path[-1][0] == "f":
            return ("at", path[-1][1], path[-1][2])

    def source(self, l):
        k = self.loc_kind(l)
        if k is None:
            return None
        if k == ("in", CSR, 3):
            return "entry position"
        if k[0] == "at" and k[1:] in WIDE_AT:
            return "number of entries"
        if k[0] == "at" and k[1] == FIELD and k[2] in (0, 1, 2):
            return "modulus"
        if k[0] == "at" and k[1] == CERT and k[2] == 1:
            return "modulus"
        return None

    def is_ptr_elem(self, v):
        """is v an element of a row-pointer array?"""
        return v.kind == "inst" and v.op == "load" and any(
            self.loc_kind(l) == ("in", CSR, 3) for l in self.u.of(v.ops[0]))

    def row_weight(self, i):
        """difference of two positions in the same row"""
        a, b = i.ops
        if not self.is_ptr_elem(b):
            return False
        if not self.is_ptr_elem(a):
            return a.kind != "int"
        d = add(self.idx(a), self.idx(b), -1)
        return d == C(1)

    def idx(self, v):
        t = self.S.t(v.ops[0])
        return t[2] if t[0] == "el" else C(0)

    def solve(self):
        insts = list(self.u.insts())
        for f in self.u.fns:
            if f.name in WIDE_ARGS and f is self.u.fn:
                for k in WIDE_ARGS[f.name]:
                    if k < len(f.args):
                        self.v[f.args[k]] = "modulus" if (f.name, k) not in COUNT_ARGS else "number of entries"
        for i in insts:
            n = i.callee_name() if i.op == "call" else None
            if n in WIDE_ARGS:
                for k in WIDE_ARGS[n]:
                    v = i.ops[k] if k < len(i.ops) else None
                    if v is not None and v.kind == "inst" and v.op == "load" and v.type == "i64":
                        for l in self.u.of(v.ops[0]):
                            if l[0][0] == "alloca" and not l[1]:
                                self.mem[l] = "number of entries" if (n, k) in COUNT_ARGS else "modulus"
        changed = True
        while changed:
            changed = False
            for a, acts in self.u.bind.items():
                if a not in self.v and a.type == "i64":
                    for x in acts:
                        if x in self.v:
                            self.v[a] = self.v[x]
                            changed = True
            for i in insts:
                if i.op == "store":
                    w = self.v.get(i.ops[0])
                    if w and i.ops[0].type == "i64":
                        for l in self.u.of(i.ops[1]):
                            if l not in self.mem:
                                self.mem[l] = w
                                changed = True
                    continue
                if i in self.v or i.type not in ("i64", "i128"):
                    continue
                w = None
                if i.op in ("load", "atomicrmw", "cmpxchg"):
                    for l in self.u.of(i.ops[0]):
                        w = w or self.source(l) or self.mem.get(l)
                    if i.op == "atomicrmw" and not w:
                        w = self.v.get(i.ops[1])
                elif i.op == "call":
                    n = i.callee_name() or ""
                    if n in WIDE_RET:
                        w = "number of entries" if n == "spasm_nnz" else "modulus"
                    elif n.startswith("llvm.") and ("max" in n or "min" in n or "abs" in n):
                        for o in i.ops:
                            w = w or self.v.get(o)
                elif i.op in ("add", "mul", "phi", "freeze", "shl", "or"):
                    for o in i.ops:
                        w = w or self.v.get(o)
                elif i.op == "sub":
                    if not self.row_weight(i):
                        w = self.v.get(i.ops[0])
                elif i.op == "select":
                    w = self.v.get(i.ops[1]) or self.v.get(i.ops[2])
                if w:
                    self.v[i] = w
                    changed = True


COUNT_ARGS = {("spasm_human_format", 0), ("spasm_csr_alloc", 2), ("spasm_csr_realloc", 1), ("spasm_triplet_alloc", 2),
              ("spasm_triplet_realloc", 1)}


def strip(v):
    while v.kind == "inst" and v.op in ("freeze",):
        v = v.ops[0]
    return v


def narrow(v):
    """the 32-bit value that v is a widening of (None if it is not one); constants do not count"""
    v = strip(v)
    if v.kind == "inst" and v.op in ("sext", "zext") and isz(v.ops[0].type) and v.ops[0].kind != "int":
        return v.ops[0]
    return None


def grows(u, x, seen=None):
    """is the 32-bit value x a loop-carried counter or accumulator?"""
    seen = set() if seen is None else seen
    x = strip(x)
    if x in seen or x.kind != "inst":
        return False
    seen.add(x)
    if x.op == "phi":
        L = cfg.innermost_loop(x.block)
        while L is not None:
            if L.header is x.block:
                return any(steps(v, x) for v, p in x.incoming if p in L.blocks)
            L = L.parent
        return any(grows(u, v, seen) for v, _ in x.incoming)
    if x.op in ("add", "sub"):
        return grows(u, x.ops[0], seen) or grows(u, x.ops[1], seen)
    if x.op == "load":
        ls = u.of(x.ops[0])
        if len(ls) == 1:
            (r, p), = ls
            if r[0] == "alloca" and not p and r[1].srctype == "i32":
                return any(i.op == "store" and u.of(i.ops[1]) == ls and i.ops[0].kind == "inst" and i.ops[0].op == "add"
                           and any(strip(o).kind == "inst" and strip(o).op == "load" and u.of(strip(o).ops[0]) == ls
                                   for o in i.ops[0].ops) for i in u.insts())
    return False


def steps(v, phi, depth=0):
    v = strip(v)
    if v is phi or depth > 12 or v.kind != "inst":
        return False
    if v.op in ("add", "sub"):
        return any(strip(o) is phi or steps(o, phi, depth + 1) for o in v.ops)
    if v.op == "phi":
        return any(steps(w, phi, depth + 1) for w, _ in v.incoming if w is not v)
    if v.op == "select":
        return any(steps(w, phi, depth + 1) for w in v.ops[1:])
    return False


def base(v):
    """strip i64 additions: list of leaves"""
    v = strip(v)
    if v.kind == "inst" and v.op in ("add", "sub"):
        return base(v.ops[0]) + base(v.ops[1])
    return [v]


CONV = re.compile(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|j|z|t|L|q)?([diouxXscpeEfgGaAn%\[])")


def conversions(fmt):
    """[(length modifier, conversion)] of a printf format, '*' counted as an int argument"""
    out = []
    for m in CONV.finditer(fmt):
        if m.group(5) == b"%":
            continue
        for s in (m.group(2), m.group(3)):
            if s == b"*":
                out.append((b"", b"*"))
        out.append((m.group(4) or b"", m.group(5)))
    return out


def scan_conversions(fmt):
    out = []
    for m in re.finditer(rb"%(\*)?(\d+)?(hh|h|ll|l|j|z|t|L|q)?([diouxXscpeEfgGaAn%]|\[\^?\]?[^\]]*\])", fmt):
        if m.group(4) == b"%" or m.group(1):
            continue
        out.append((m.group(3) or b"", m.group(4)[:1]))
    return out


PARSE = ("atoi", "atol", "atoll", "strtol", "strtoll", "__isoc23_strtol", "__isoc23_strtoll")
PRINTF = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1}
SCANF = {"scanf": 0, "fscanf": 1, "sscanf": 1, "__isoc99_sscanf": 1, "__isoc99_fscanf": 1, "__isoc99_scanf": 0,
         "__isoc23_sscanf": 1, "__isoc23_fscanf": 1, "__isoc23_scanf": 0}
LONG = (b"l", b"ll", b"j", b"z", b"t", b"q")


def literal(v):
    while v.kind == "cexpr" and v.ops:
        v = v.ops[0]
    if v.kind == "global" and getattr(v, "init", None) is not None and v.init.kind == "str":
        s = v.init.val
        return s.split(b"\0")[0] if isinstance(s, bytes) else s.encode().split(b"\0")[0]
    return None


def unit(rep, u, M, who):
    S = Sym(u, M)
    T = Taint(u, M, S)
    exempt = bool(EXEMPT.match(u.fn.name))

    def w(i):
        return "%s%s %s" % (who, u.fn.name.split(".")[0], i.loc)

    scanned = set()
    for i in u.insts():
        n = i.callee_name() if i.op == "call" else None
        if n in SCANF:
            for o in i.ops[SCANF[n] + 1:]:
                scanned |= u.of(o)
    for i in u.insts():
        n = i.callee_name() if i.op == "call" else None
        if i.op == "trunc" and i.ops[0] in T.v:
            if exempt or (RESIDUES.match(u.fn.name) and not direct(i.ops[0])):
                continue
            rep.bad("no-squeeze", w(i), "trunc:" + T.v[i.ops[0]], "a %s is converted to %s" % (T.v[i.ops[0]], i.type))
        if i.op in ("load", "store", "atomicrmw"):
            p = i.ops[1] if i.op == "store" else i.ops[0]
            ty = i.ops[0].type if i.op == "store" else i.type
            for l in u.of(p):
                why = T.source(l)
                if why and ty != "ptr":
                    if ty != "i64":
                        rep.bad("wide-access", w(i), "type:" + why, "a %s is accessed as %s" % (why, ty))
                    else:
                        rep.ok("wide-access", w(i))
                    if i.op == "store" and why:
                        x = narrow(i.ops[0])
                        if x is not None and (grows(u, x) or (x.kind == "inst" and x.op in ("trunc", "mul", "fptosi", "fptoui")) or
                                              reads(u, x, scanned)):
                            rep.bad("wide-store", w(i), "store:" + why, "a %s is stored from a 32-bit counter or "
                                    "product" % why)
                        elif i.ops[0].kind != "int":
                            rep.ok("wide-store", w(i))
                    break
        if i.op == "gep":
            for l in u.of(i):
                k = T.loc_kind(l)
                if k and k[0] == "in" and k[1:] in ENTRY and len(i.ops) == 2 and not i.srctype.startswith("%"):
                    b = base(i.ops[1])
                    x = narrow(b[0]) if len(b) == 1 else None
                    if x is not None:
                        rep.bad("positions", w(i), "index", "an entry array is indexed by a 32-bit position")
                    else:
                        rep.ok("positions", w(i))
                    break
        if i.op == "icmp":
            a, b = i.ops
            for x, y in ((a, b), (b, a)):
                if y in T.v and narrow(x) is not None:
                    if grows(u, narrow(x)):
                        rep.bad("bounds", w(i), "counter:" + T.v[y], "a 32-bit counter runs up to a %s" % T.v[y])
                    else:
                        rep.ok("bounds", w(i))
        if i.op == "phi" and isz(i.type) and accumulates(T, i):
            rep.bad("bounds", w(i), "sum", "row sizes are summed up in %s" % i.type)
        if i.op == "store" and memory_count(T, i):
            rep.bad("bounds", w(i), "count", "entries are counted in i32")
        if i.op == "store" and i.ops[0].type == "i64" and narrow(i.ops[0]) is not None:
            x = strip(narrow(i.ops[0]))
            if x.kind == "inst" and x.op == "trunc":
                x = strip(x.ops[0])
            if x.kind == "inst" and x.op == "call" and x.callee_name() in PARSE:
                rep.bad("wide-store", w(i), "atoi", "a 64-bit setting is parsed as a 32-bit number")
        if i.op == "atomicrmw" and isz(i.type) and rowsize(T, i.ops[1]):
            rep.bad("bounds", w(i), "sum", "entries are counted in %s" % i.type)
        if n in WIDE_ARGS:
            for k in WIDE_ARGS[n]:
                if k >= len(i.ops):
                    continue
                v = i.ops[k]
                if v.type != "i64":
                    rep.bad("wide-args", w(i), "type:%s#%d" % (n, k), "%s takes its argument %d as %s" % (n, k, v.type))
                    continue
                x = narrow(v)
                modulus = (n, k) not in COUNT_ARGS
                if x is not None and not exempt and (grows(u, x) or reads(u, x, scanned) or
                                      (x.kind == "inst" and x.op in ("trunc", "mul", "fptosi", "fptoui")) or
                                      modulus):
                    x = None
                elif not exempt and any(est(y) for y in operands(v)):
                    x = None
                else:
                    x = v
                if x is None:
                    rep.bad("wide-args", w(i), "arg:%s" % n, "the %s passed to %s comes from a 32-bit quantity" % (
                        "modulus" if modulus else "number of entries", n))
                else:
                    rep.ok("wide-args", w(i))
        if n in PRINTF:
            fmt = literal(i.ops[PRINTF[n]])
            if fmt is not None:
                cs = conversions(fmt)
                for (lm, cv), a in zip(cs, i.ops[PRINTF[n] + 1:]):
                    if a in T.v:
                        if cv in b"diouxX" and lm not in LONG:
                            rep.bad("formats", w(i), "printf", "a %s is printed through a 32-bit conversion" % T.v[a])
                        else:
                            rep.ok("formats", w(i))
        if n in SCANF:
            fmt = literal(i.ops[SCANF[n]])
            if fmt is not None:
                for (lm, cv), a in zip(scan_conversions(fmt), i.ops[SCANF[n] + 1:]):
                    if cv not in b"diouxX":
                        continue
                    wide = any(T.source(l) or l in T.mem or i64_local(l) for l in u.of(a))
                    if wide and lm not in LONG:
                        rep.bad("formats", w(i), "scanf", "a 64-bit variable is filled by a 32-bit conversion")
                    elif wide:
                        rep.ok("formats", w(i))


def operands(v, depth=0):
    v = strip(v)
    if v.kind == "inst" and v.op in ("add", "sub", "mul") and depth < 10:
        return operands(v.ops[0], depth + 1) + operands(v.ops[1], depth + 1)
    return [v]


def est(v):
    """a number estimated in floating point and cut to 32 bits"""
    x = narrow(v)
    return x is not None and x.kind == "inst" and x.op in ("fptosi", "fptoui")


def direct(v):
    """the modulus itself, not a residue computed with it"""
    v = strip(v)
    return v.kind == "arg" or (v.kind == "inst" and v.op == "load")


def i64_local(l):
    return l[0][0] == "alloca" and not l[1] and l[0][1].srctype == "i64"


def reads(u, x, scanned):
    """is x a 32-bit variable filled by scanf, or the result of atoi?"""
    x = strip(x)
    if x.kind != "inst":
        return False
    if x.op == "load":
        return bool(u.of(x.ops[0]) & scanned)
    if x.op == "call":
        return x.callee_name() in PARSE
    if x.op in ("add", "sub", "phi"):
        return any(reads(u, o, scanned) for o in x.ops if o is not x and o.kind == "inst" and o.op != "phi")
    return False


def rowsize(T, v, depth=0):
    """a 32-bit value that is the number of entries of a row"""
    v = strip(v)
    if depth > 6 or v.kind != "inst":
        return False
    if v.op == "trunc":
        s = strip(v.ops[0])
        return s.kind == "inst" and s.op == "sub" and T.is_ptr_elem(s.ops[1]) or v.ops[0] in T.v
    if v.op in ("add", "sub"):
        return any(rowsize(T, o, depth + 1) for o in v.ops)
    if v.op == "call":
        return v.callee_name() == "spasm_row_weight"
    return False


def leaves(v, phi, depth=0, seen=None):
    """addends of v down to phi"""
    seen = set() if seen is None else seen
    v = strip(v)
    if v is phi or v in seen:
        return []
    seen.add(v)
    if v.kind == "inst" and v.op == "add" and depth < 20:
        return leaves(v.ops[0], phi, depth + 1, seen) + leaves(v.ops[1], phi, depth + 1, seen)
    if v.kind == "inst" and v.op == "phi" and depth < 20:
        return [x for w, _ in v.incoming for x in leaves(w, phi, depth + 1, seen)]
    if v.kind == "inst" and v.op == "select":
        return [x for w in v.ops[1:] for x in leaves(w, phi, depth + 1, seen)]
    return [v]


def accumulates(T, phi):
    L = cfg.innermost_loop(phi.block)
    while L is not None and L.header is not phi.block:
        L = L.parent
    if L is None:
        return False
    for v, p in phi.incoming:
        if p not in L.blocks or strip(v) is phi:
            continue
        if not steps(v, phi):
            continue
        if any(rowsize(T, x) for x in leaves(v, phi)):
            return True
        # +1 for every entry of every row
        if nested_count(T, phi, v, L):
            return True
    return False


def entry_loop(T, L):
    """does the loop run over entry positions?"""
    for ph in L.header.phis:
        if ph.type == "i64" and ph in T.v:
            return True
    return False


def pattern_loop(T, K):
    """does the loop enumerate the pattern produced by the sparse solver ( [top, m) )?"""
    for ph in K.header.phis:
        for v, p in ph.incoming:
            if p not in K.blocks:
                v = strip(v)
                while v.kind == "inst" and v.op in ("sext", "zext"):
                    v = v.ops[0]
                if v.kind == "inst" and v.op == "call" and v.callee_name() in ("spasm_sparse_triangular_solve",
                                                                             "spasm_reach"):
                    return True
    return False


def nested_count(T, phi, v, L):
    """phi (header of L) advances in a nested loop over entries, at every turn (or, over the pattern of an eliminated
    row, at some turns)"""
    v = strip(v)
    if v.kind != "inst" or v.op != "phi":
        return False
    K = cfg.innermost_loop(v.block)
    if K is None or K is L or K.header is not v.block or not any(strip(w) is phi for w, _ in v.incoming):
        return False
    pat = pattern_loop(T, K)
    if not pat and not entry_loop(T, K):
        return False
    for w, p in v.incoming:
        if p in K.blocks:
            w = strip(w)
            if pat and steps(w, v):
                return True
            if w.kind == "inst" and w.op == "add" and any(strip(o) is v for o in w.ops) and \
                    any(o.kind == "int" for o in w.ops) and cfg.dominates(w.block, p):
                return True
    return False


def memory_count(T, i):
    """i: store of (load of the same 32-bit local) + something counting entries, never reset in the outer loop"""
    v = strip(i.ops[0])
    if i.ops[0].type != "i32" or v.kind != "inst" or v.op != "add":
        return False
    ls = T.u.of(i.ops[1])
    if len(ls) != 1:
        return False
    (r, path), = ls
    if r[0] != "alloca" or path or r[1].srctype != "i32":
        return False
    ld = [o for o in v.ops if strip(o).kind == "inst" and strip(o).op == "load" and T.u.of(strip(o).ops[0]) == ls]
    if not ld:
        return False
    inc = [o for o in v.ops if o is not ld[0]]
    if any(rowsize(T, x) for x in inc):
        return True
    if not all(x.kind == "int" for x in inc):
        return False
    K = cfg.innermost_loop(i.block)
    if K is None:
        return False
    pat = pattern_loop(T, K)
    if not pat and not (entry_loop(T, K) and all(cfg.dominates(i.block, b) for b in K.latches)):
        return False
    L = K.parent
    if L is None:
        return False
    for b in L.blocks:
        for j in b.insts:
            if j.op == "store" and j is not i and T.u.of(j.ops[1]) == ls and j.ops[0].kind == "int":
                return False
    return True


def shapes(rep, M, who):
    """the data structures reserve 64 bits"""
    for (s, want) in ((CSR, {0: "i64"}), (TRI, {0: "i64", 1: "i64"}), (FIELD, {0: "i64", 1: "i64", 2: "i64"}),
                      (CERT, {1: "i64"})):
        f = M.structs.get("%" + s) or M.structs.get(s)
        if f is None:
            continue
        for k, t in want.items():
            if f[k] != t:
                rep.bad("shapes", s, "field%d" % k, "field %d of %s is %s, not 64 bits" % (k, s, f[k]))
            else:
                rep.ok("shapes", "%s%s.%d" % (who, s, k))


def check(b, rep):
    rep.rule("no-squeeze", "no entry count, entry position or modulus is converted to a type narrower than 64 bits "
             "(differences of two positions of the same row excepted)")
    rep.rule("wide-access", "row pointers, nzmax, nz and the modulus are read and written as 64-bit integers")
    rep.rule("wide-store", "what is stored there is not the widening of a 32-bit counter, product or scanned number")
    rep.rule("positions", "index / coefficient arrays are never indexed by a 32-bit position")
    rep.rule("bounds", "no 32-bit counter is compared with such a quantity, and none adds up row sizes or counts the "
             "entries of all rows")
    rep.rule("wide-args", "arguments that stand for a number of entries or a modulus are 64-bit and not the widening of "
             "a 32-bit counter, product or parsed number")
    rep.rule("formats", "they are printed and scanned through 64-bit conversions")
    rep.rule("shapes", "the structures reserve 64 bits for them")
    M = b.lib()
    shapes(rep, M, "")
    names = [n for n in API if n in M.functions and M.functions[n].blocks]
    nu = 0
    for u in pts.units(M, names):
        unit(rep, u, M, "")
        nu += 1
    nt = 0
    for t in b.tool_names():
        TM = b.tool(t)
        for u in pts.units(TM, ["main"]):
            unit(rep, u, TM, t + ":")
        done = set(g.name for v in pts.units(TM, ["main"]) for g in v.fns)
        for n, f in TM.functions.items():
            if f.blocks and n not in done and not n.endswith("omp_outlined"):
                unit(rep, pts.Unit(f).solve(), TM, t + ":")
        nt += 1
    FM = b.ffmod()
    nf = 0
    for n, f in FM.functions.items():
        if f.blocks:
            unit(rep, pts.Unit(f).solve(), FM, "ffpack:")
            nf += 1
    rep.extra["library_operations"] = nu
    rep.extra["tools"] = nt
    rep.extra["ffpack_functions"] = nf
    rep.expl = ("Width dataflow over LLVM IR: 64-bit quantities are traced from row pointers, capacities, entry counts "
                "and moduli through arithmetic, locals and arrays; every conversion, comparison, index, argument and "
                "format they reach is inspected.")
    rep.assumptions = ["a single row has fewer than 2^31 entries (documented)", "LP64 data model"]
    rep.need("wide-access", 30)
    rep.need("positions", 20)
    rep.need("wide-args", 15)
    rep.need("shapes", 4)


if __name__ == "__main__":
    sys.exit(run("P07", check))
