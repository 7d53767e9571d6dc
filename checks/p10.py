"""P10: stored coefficients are canonical residues."""
from common import *
import re
import pts
from p07 import strip, SCANF

CSR, TRI, CERT = "struct.spasm_csr", "struct.spasm_triplet", "struct.spasm_rank_certificate"
COEF = {(CSR, 5), (TRI, 6), (CERT, 5), (CERT, 6)}
# array arguments holding coefficients, by public operation
ARRAYS = {"spasm_pvec": (1, 2), "spasm_ipvec": (1, 2), "spasm_scatter": (3,), "spasm_xApy": (0, 2),
          "spasm_Axpy": (1, 2), "spasm_dense_back_solve": (1, 2), "spasm_dense_forward_solve": (1, 2),
          "spasm_sparse_triangular_solve": (4,), "spasm_solve": (1, 2)}
# scalar arguments that must be coefficients
SCALARS = {"spasm_scatter": (2,), "spasm_datatype_write": (3,), "spasm_ZZp_add": (1, 2), "spasm_ZZp_sub": (1, 2),
           "spasm_ZZp_mul": (1, 2), "spasm_ZZp_inverse": (1,), "spasm_ZZp_axpy": (1, 2, 3)}
PRODUCERS = {"spasm_ZZp_init", "spasm_ZZp_add", "spasm_ZZp_sub", "spasm_ZZp_mul", "spasm_ZZp_inverse",
             "spasm_ZZp_axpy", "spasm_prng_ZZp", "spasm_datatype_read"}
SKIP = re.compile(r"spasm_(ZZp_|prng_|field_init|SHA256_|datatype_)")
SMALL = (-1, 0, 1)


def coef_path(l):
    p = l[1]
    return len(p) > 1 and p[-1] == "*" and p[-2][0] == "f" and p[-2][1:] in COEF


class Canon:
    def __init__(self, u):
        self.u = u
        self.coef = set()
        self.stores = {}
        self.copies = {}
        self.sentinels = set()
        name = u.fn.name
        for k in ARRAYS.get(name, ()):
            self.coef.add((("arg", k), ()))
        for i in u.insts():
            if i.op == "store":
                for l in u.of(i.ops[1]):
                    self.stores.setdefault(l, []).append(i)
            elif i.op == "call":
                n = i.callee_name() or ""
                for k in ARRAYS.get(n, ()):
                    if k < len(i.ops):
                        self.coef |= set(l for l in u.of(i.ops[k]) if l != pts.UNK)
                if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
                    for l in u.of(i.ops[0]):
                        self.copies.setdefault(l, []).append(i)
            elif i.op == "icmp" and i.pred in ("eq", "ne"):
                for a, b in (i.ops, i.ops[::-1]):
                    a = strip(a)
                    if b.kind == "int" and a.kind == "inst" and a.op == "load":
                        for l in u.of(a.ops[0]):
                            self.sentinels.add((l, b.val))
        for l, vs in u.store.items():
            p = l[1]
            if p and p[-1][0] == "f" and p[-1][1:] in COEF:
                self.coef |= set(v for v in vs if v != pts.UNK)
        # pointers kept in locals: what the local may point to
        self.memo = {}

    def is_coef(self, l):
        return coef_path(l) or l in self.coef

    def loc_ok(self, l, seen):
        if self.is_coef(l):
            return True
        if l == pts.UNK or l[0][0] not in ("call", "alloca"):
            return False
        if l in seen:
            return True
        seen = seen | {l}
        st = self.stores.get(l, [])
        cp = self.copies.get(l, [])
        if not st and not cp:
            return False
        return all(self.ok(s.ops[0], seen, l) for s in st) and all(
            all(self.loc_ok(x, seen) for x in self.u.of(c.ops[1])) for c in cp)

    def ok(self, v, seen=frozenset(), at=None):
        """is v certainly a canonical coefficient?"""
        v = strip(v)
        if v.kind == "int":
            return v.val in SMALL or (at is not None and (at, v.val) in self.sentinels)
        if v.kind in ("undef", "zero"):
            return True
        if v.kind == "arg":
            sc = SCALARS.get(self.u.fn.name, ())
            return any(v is self.u.fn.args[k] for k in sc) or self.captured(v, seen)
        if v.kind != "inst":
            return False
        if v in seen:
            return True
        seen = seen | {v}
        if v.op == "call":
            n = v.callee_name() or ""
            if n in PRODUCERS:
                return True
            if n.startswith("llvm.") and ("max" in n or "min" in n or "abs" in n):
                return all(self.ok(o, seen) for o in v.ops if o.type == v.type)
            return False
        if v.op == "load":
            ls = self.u.of(v.ops[0])
            return bool(ls) and all(self.loc_ok(l, seen) for l in ls)
        if v.op in ("phi", "freeze"):
            return all(self.ok(o, seen) for o in v.ops)
        if v.op == "select":
            return all(self.ok(o, seen) for o in v.ops[1:])
        if v.op in ("sext", "trunc"):
            return self.ok(v.ops[0], seen)
        if v.op == "zext":
            return v.ops[0].type in ("i1",)
        if v.op == "sub" and v.ops[0].kind == "int" and v.ops[0].val == 0:
            return self.ok(v.ops[1], seen)
        if v.op == "mul" and any(o.kind == "int" and o.val in (-1, 1) for o in v.ops):
            return all(self.ok(o, seen) for o in v.ops)
        return False

    def captured(self, v, seen):
        b = self.u.bind.get(v)
        return bool(b) and all(self.ok(x, seen) for x in b)

    def why(self, v, depth=0):
        v = strip(v)
        if v.kind == "int":
            return "the constant %d" % v.val
        if v.kind == "inst":
            if v.op in ("sext", "trunc", "freeze"):
                return self.why(v.ops[0], depth)
            if v.op == "phi" and depth < 4:
                for o in v.ops:
                    if o is not v and not self.ok(o):
                        return self.why(o, depth + 1)
            if v.op == "call":
                return "the result of %s" % (v.callee_name() or "an indirect call")
            if v.op == "load":
                return "a value that is not a coefficient"
            return "a raw %s" % v.op
        return "a raw value"


def unit(rep, u, who):
    name = u.fn.name
    if SKIP.match(name):
        return
    K = Canon(u)
    for i in u.insts():
        w = "%s%s %s" % (who, name.split(".")[0], i.loc)
        if i.op == "store" and i.ops[0].type in ("i32", "i64", "i16", "i8"):
            ls = [l for l in u.of(i.ops[1]) if K.is_coef(l)]
            if not ls:
                continue
            if all(K.ok(i.ops[0], frozenset(), l) for l in ls):
                rep.ok("stores", w)
            else:
                rep.bad("stores", w, "store", "%s is stored as a coefficient without being reduced" % K.why(i.ops[0]))
        elif i.op in ("atomicrmw", "cmpxchg"):
            if any(K.is_coef(l) for l in u.of(i.ops[0])):
                rep.bad("stores", w, "rmw", "a coefficient is updated by raw machine arithmetic")
        elif i.op == "call":
            n = i.callee_name() or ""
            for k in SCALARS.get(n, ()):
                if k >= len(i.ops):
                    continue
                if K.ok(i.ops[k]):
                    rep.ok("operands", w)
                else:
                    rep.bad("operands", w, "arg:%s" % n, "%s receives %s, which need not be canonical" % (
                        n, K.why(i.ops[k])))
            if n in SCANF and name != "spasm_rank_certificate_load":
                for o in i.ops[SCANF[n] + 1:]:
                    if any(K.is_coef(l) for l in u.of(o)):
                        rep.bad("stores", w, "scanf", "a number read from a file is stored as a coefficient without "
                                "being reduced")
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
                if any(K.is_coef(l) for l in u.of(i.ops[0])):
                    if u.of(i.ops[1]) and all(K.loc_ok(l, frozenset()) for l in u.of(i.ops[1])):
                        rep.ok("stores", w)
                    else:
                        rep.bad("stores", w, "copy", "data that are not coefficients are copied into coefficients")
            if n.startswith("llvm.memset") or n == "memset":
                if any(K.is_coef(l) for l in u.of(i.ops[0])):
                    if i.ops[1].kind == "int" and i.ops[1].val in (0, -1):
                        rep.ok("stores", w)
                    else:
                        rep.bad("stores", w, "memset", "coefficients are set byte-wise to something else than 0 or -1")


def generator(rep, M):
    rep.rule("generator", "random coefficients are reduced by the field of the generator before they are returned")
    u = pts.units(M, ["spasm_prng_ZZp"])[0]
    K = Canon(u)
    for i in u.insts():
        if i.op == "ret":
            if i.ops and K.ok(i.ops[0]):
                rep.ok("generator", i.loc)
            else:
                rep.bad("generator", "spasm_prng_ZZp %s" % i.loc, "ret", "a random number is returned without reduction")


def ffpack(rep, b):
    rep.rule("dense", "dense blocks are computed in the balanced representation, and reading back one element only "
             "converts its type")
    FM = b.ffmod()
    for n in ("spasm_ffpack_rref", "spasm_ffpack_LU"):
        f = FM.functions[n]
        fields = set()
        for i in f.insts():
            if i.op in ("call", "invoke"):
                m = re.search(r"6Givaro(\d+Modular\w*?)I", i.callee_name() or "")
                if m and re.search(r"C[12]", i.callee_name()):
                    fields.add(re.sub(r"^\d+", "", m.group(1)))
        if not fields:
            fields = set(re.sub(r"^\d+", "", m.group(1)) for i in f.insts() if i.op in ("call", "invoke")
                         for m in [re.search(r"6Givaro(\d+Modular[A-Za-z]*?)I", i.callee_name() or "")] if m)
        for x in sorted(fields):
            if x.startswith("ModularBalanced"):
                rep.ok("dense", n + ": " + x)
            else:
                rep.bad("dense", n, "field", "the dense computation uses %s, whose residues are not balanced" % x)
        if not fields:
            rep.bad("dense", n, "field", "no balanced field is set up")
    f = FM.functions["spasm_datatype_read"]
    for i in f.insts():
        if i.op == "ret":
            todo, seen = [i.ops[0]], set()
            while todo:
                v = strip(todo.pop())
                if v in seen:
                    continue
                seen.add(v)
                if v.kind == "inst" and v.op == "phi":
                    todo += list(v.ops)
                elif v.kind == "inst" and v.op in ("fptosi", "trunc", "load", "sext", "fpext"):
                    if v.op != "load":
                        todo.append(v.ops[0])
                    elif v.ops[0].kind == "inst" and v.ops[0].op == "alloca":
                        todo += [s.ops[0] for s in f.insts() if s.op == "store" and s.ops[1] is v.ops[0]]
                elif v.kind in ("undef",):
                    pass
                else:
                    rep.bad("dense", "spasm_datatype_read %s" % i.loc, "read", "reading a dense element changes it")
                    break
            else:
                rep.ok("dense", "spasm_datatype_read %s" % i.loc)


def check(b, rep):
    rep.rule("stores", "every store into coefficients of a matrix, triplet list, certificate or coefficient vector is the "
             "result of a field operation, of the generator, of a dense read, another coefficient, the opposite of one, "
             "or -1, 0, 1 (or a sentinel that the same routine looks for and replaces)")
    rep.rule("operands", "field operations, scatter and dense writes only receive such values")
    M = b.lib()
    n = 0
    for u in pts.units(M):
        unit(rep, u, "")
        n += 1
    for t in b.tool_names():
        TM = b.tool(t)
        for u in pts.units(TM, ["main"]):
            unit(rep, u, t + ":")
    generator(rep, M)
    ffpack(rep, b)
    rep.extra["library_operations"] = n
    rep.expl = ("Provenance analysis over LLVM IR: coefficient memory is identified by field (points-to) and by the "
                "coefficient arguments of the public interface; every store into it and every operand of a field "
                "operation is traced to its producers.")
    rep.assumptions = ["odd modulus (the opposite of a balanced residue is balanced)", "coefficients handed in by the "
                       "caller are canonical", "coefficients of certificates read from a file are taken as they are"]
    rep.need("stores", 20)
    rep.need("operands", 20)
    rep.need("dense", 3)


if __name__ == "__main__":
    sys.exit(run("P10", check))
