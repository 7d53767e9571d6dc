"""P08: products of two run-time sizes are computed in 64 bits (or floating point)."""
from common import *
import pts
from p07 import strip, isz, grows

SKIP = ("spasm_SHA256_",)


def variable(v):
    return v.kind not in ("int", "zero", "undef")


def operand(v):
    """look through widenings of constants etc."""
    v = strip(v)
    return v


class Flow:
    """where does a 32-bit product end up?"""

    def __init__(self, u):
        self.u = u
        self.by_loc = {}
        for i in u.insts():
            if i.op == "load" and isz(i.type):
                for l in u.of(i.ops[0]):
                    self.by_loc.setdefault(l, []).append(i)
        self.args = {}
        for a, acts in u.bind.items():
            for x in acts:
                self.args.setdefault(x, []).append(a)

    def sinks(self, v):
        """[(inst, what)] sinks of the 32-bit value v"""
        out, seen, todo = [], set(), [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += self.args.get(x, [])
            for i in x.uses:
                if i.op in ("sext", "zext"):
                    if i.type in ("i64", "i128"):
                        out.append((i, self.use(i)))
                    else:
                        todo.append(i)
                elif i.op in ("sitofp", "uitofp"):
                    out.append((i, "an estimate"))
                elif i.op in ("add", "sub", "mul", "phi", "select", "freeze", "sdiv", "udiv", "shl", "or"):
                    if i.op == "select" and i.ops[0] is x:
                        continue
                    if i.op in ("sdiv", "udiv") and i.ops[0] is not x:
                        continue
                    todo.append(i)
                elif i.op == "gep" and i.ops[0] is not x:
                    out.append((i, "an address"))
                elif i.op == "store" and i.ops[0] is x:
                    for l in self.u.of(i.ops[1]):
                        todo += self.by_loc.get(l, [])
                elif i.op == "icmp":
                    o = i.ops[1] if i.ops[0] is x else i.ops[0]
                    if variable(o) and grows(self.u, o):
                        out.append((i, "a loop bound"))
                elif i.op == "call":
                    n = i.callee_name() or ""
                    if n.startswith("llvm.") and ("max" in n or "min" in n):
                        todo.append(i)
                    elif n in ("malloc", "calloc", "realloc", "spasm_malloc", "spasm_calloc", "spasm_realloc"):
                        out.append((i, "a memory size"))
        return out

    def use(self, w):
        """what is a widened product used for?"""
        seen, todo = set(), [w]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for i in x.uses:
                if i.op == "gep" and i.ops[0] is not x:
                    return "an offset"
                if i.op == "call":
                    n = i.callee_name() or ""
                    if "alloc" in n or n.endswith("resize"):
                        return "a memory size"
                if i.op in ("add", "sub", "mul", "phi", "select", "freeze", "sdiv", "udiv"):
                    todo.append(i)
        return "a 64-bit quantity"


def leaf64(v):
    v = strip(v)
    while v.kind == "inst" and v.op in ("sext", "zext"):
        v = strip(v.ops[0])
    return v


def unit(rep, u, who):
    if u.fn.name.startswith(SKIP):
        return
    F = Flow(u)
    for i in u.insts():
        where = "%s%s %s" % (who, u.fn.name.split(".")[0], i.loc)
        if i.op in ("mul", "shl") and isz(i.type):
            a, b = i.ops
            if not (variable(strip(a)) and variable(strip(b))):
                continue
            s = F.sinks(i)
            if s:
                rep.bad("wide-product", where, "product", "a product of two run-time quantities is computed in %s and "
                        "then used as %s (%s)" % (i.type, s[0][1], s[0][0].loc))
            else:
                rep.ok("harmless", where)
        elif i.op == "trunc" and isz(i.type):
            v = strip(i.ops[0])
            if v.kind == "inst" and v.op == "mul" and all(variable(leaf64(o)) for o in v.ops):
                s = F.sinks(i)
                if s:
                    rep.bad("wide-product", where, "cut", "a product of two run-time quantities is cut to %s and then "
                            "used as %s (%s)" % (i.type, s[0][1], s[0][0].loc))
        elif i.op == "mul" and i.type == "i64" and all(variable(leaf64(o)) for o in i.ops):
            rep.ok("wide-product", where)
        elif i.op == "fmul" and all(o.kind != "fp" for o in i.ops):
            rep.ok("float-product", where)
        elif i.op == "call" and (i.callee_name() or "").startswith("llvm.smul.with.overflow.i32"):
            rep.bad("wide-product", where, "product", "a product of two run-time quantities is computed in i32")


def check(b, rep):
    rep.rule("wide-product", "no multiplication of two non-constant values is carried out in less than 64 bits when its "
             "result (through sums, divisions, selections, locals, captured variables) is widened, converted to "
             "floating point, used as address, memory size or bound of a loop; no such product is cut to 32 bits on "
             "its way there")
    rep.rule("harmless", "32-bit products that never leave 32-bit comparisons")
    rep.rule("float-product", "products in floating point")
    M = b.lib()
    n = 0
    done = set()
    for u in pts.units(M):
        unit(rep, u, "")
        done |= set(f.name for f in u.fns)
        n += 1
    for f in M.functions.values():
        if f.blocks and f.name not in done:
            unit(rep, pts.Unit(f).solve(), "")
    for t in b.tool_names():
        TM = b.tool(t)
        us = pts.units(TM, ["main"])
        done = set(g.name for v in us for g in v.fns)
        for u in us:
            unit(rep, u, t + ":")
        for f in TM.functions.values():
            if f.blocks and f.name not in done:
                unit(rep, pts.Unit(f).solve(), t + ":")
    FM = b.ffmod()
    for f in FM.functions.values():
        if f.blocks:
            unit(rep, pts.Unit(f).solve(), "ffpack:")
    rep.extra["library_operations"] = n
    rep.expl = ("Width dataflow over LLVM IR: every multiplication of two run-time values in library, tools and FFPACK "
                "wrapper is found and the uses of the 32-bit ones are followed.")
    rep.assumptions = ["LP64 data model"]
    rep.need("wide-product", 5)


if __name__ == "__main__":
    sys.exit(run("P08", check))
