"""P26: dense blocks use one element type throughout, and one that supports the modulus."""
from common import *
import re, subprocess
import linear as ln
from linear import add as ladd, const as lconst, atom as latom
import p11
import pts, sym

MB = re.compile(r"ModularBalancedI([a-z])E")
TAGS = {"d": "double", "f": "float", "l": "i64", "i": "i32"}
SIZE = {"double": 8, "float": 4, "i64": 8, "i32": 4}
STUB = r"""
#include <givaro/modular-balanced.h>
extern "C" unsigned long limit_double() { return (unsigned long) Givaro::ModularBalanced<double>::maxCardinality(); }
extern "C" unsigned long limit_float() { return (unsigned long) Givaro::ModularBalanced<float>::maxCardinality(); }
extern "C" unsigned long limit_i64() { return (unsigned long) Givaro::ModularBalanced<int64_t>::maxCardinality(); }
extern "C" unsigned long limit_i32() { return (unsigned long) Givaro::ModularBalanced<int32_t>::maxCardinality(); }
"""


def limits(b):
    src = os.path.join(b.dir, "limits.cpp")
    open(src, "w").write(STUB)
    fl = subprocess.run(["pkg-config", "--cflags", "givaro"], capture_output=True, text=True).stdout.split()
    out = os.path.join(b.dir, "limits.ll")
    r = subprocess.run(["clang++", "-std=gnu++11", "-w", "-O1", "-S", "-emit-llvm"] + fl + [src, "-o", out], capture_output=True, text=True)
    if r.returncode:
        raise Broken("the limits of the dense library cannot be read: " + r.stderr[:500])
    t = open(out).read()
    res = {}
    for k in SIZE:
        m = re.search(r"@limit_%s\(.*?ret i64 (\d+)" % k, t, re.S)
        if m:
            res[k] = int(m.group(1))
    return res


SEE = [None]                      # the unit under analysis: sees through captured variables


def known(v, tag, val):
    """value of v when the argument `tag` has the value val; None if it does not depend on it alone"""
    if v is tag:
        return val
    if SEE[0] is not None and v.kind == "inst" and v.op == "load":
        w = SEE[0].resolve(v)
        return known(w, tag, val) if w is not v else None
    if v.kind == "int":
        return v.val
    if v.kind != "inst":
        return None
    if v.op in ("sext", "zext", "trunc", "freeze"):
        return known(v.ops[0], tag, val)
    if v.op in ("icmp", "add", "sub", "and", "or", "xor", "mul", "shl"):
        a, c = known(v.ops[0], tag, val), known(v.ops[1], tag, val)
        if a is None or c is None:
            return None
        if v.op == "icmp":
            p = v.pred.lstrip("su") if v.pred not in ("sub",) else v.pred
            return int({"eq": a == c, "ne": a != c, "lt": a < c, "le": a <= c, "gt": a > c, "ge": a >= c}[p])
        return {"add": a + c, "sub": a - c, "and": a & c, "or": a | c, "xor": a ^ c, "mul": a * c, "shl": a << c}[v.op]
    if v.op == "select":
        a = known(v.ops[0], tag, val)
        return None if a is None else known(v.ops[1 if a else 2], tag, val)
    return None


def reached(fn, tag, val):
    """instructions that can run when the argument `tag` is val, and the edges"""
    out, edges = [], set()
    seen, work = set(), [fn.blocks[0]]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        out += x.insts
        t = x.term
        nx = list(x.succs)
        if t.op in ("br", "switch") and t.ops:
            k = known(t.ops[0], tag, val)
            if k is not None:
                if t.op == "br" and len(t.targets) == 2:
                    nx = [t.targets[0 if k & 1 else 1]]
                elif t.op == "switch":
                    hit = [s for c, s in t.cases if c == k]
                    rest = [s for s in x.succs if s not in [s2 for _, s2 in t.cases]]
                    nx = hit or rest
        for s in nx:
            edges.add((x, s))
            work.append(s)
    return out, edges


def stored(u, tag, val, k):
    """element types and strides used on argument k of the unit when the argument `tag` is val"""
    SEE[0] = u
    types, where, strides = set(), None, []
    for fn in u.fns:
        insts, _ = reached(fn, tag, val)
        for i in insts:
            a = i.ops[1] if i.op == "store" else i.ops[0] if i.op == "gep" else None
            if a is None or not any(l[0] == ("arg", k) and not l[1] for l in u.of(a)):
                continue
            if i.op == "store":
                types.add(i.ops[0].type)
                where = where or i
            elif i.srctype in SIZE:
                strides.append(i)
    SEE[0] = None
    return types, where, strides


def values(v, edges, tag, val):
    """constants a value may be, along the edges that can be taken"""
    k = known(v, tag, val)
    if k is not None:
        return {k}
    if v.kind == "inst" and v.op == "phi":
        r = set()
        for o, pb in v.incoming:
            if (pb, v.block) in edges:
                r |= values(o, edges, tag, val)
        return r
    if v.kind == "inst" and v.op in ("sext", "zext", "trunc", "freeze"):
        return values(v.ops[0], edges, tag, val)
    return {None}


def based(v, a):
    """does the address v come from argument a?"""
    seen, work, ok = set(), [v], False
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        if v is a:
            ok = True
        elif v.kind == "inst" and v.op in ("gep", "bitcast", "freeze"):
            work.append(v.ops[0])
        elif v.kind == "inst" and v.op == "phi":
            work += [o for o, _ in v.incoming]
        elif v.kind == "inst" and v.op == "select":
            work += v.ops[1:]
    return ok


def element(fn, role, tag, val, args):
    """(element types used for this tag, the first instruction concerned, problem)"""
    insts, edges = reached(fn, tag, val)
    types, where, prob = set(), None, None
    for i in insts:
        t = None
        if role == "dense" and i.op == "call":
            m = MB.search(i.callee_name() or "")
            if m:
                t = TAGS.get(m.group(1))
        elif role in ("read", "write") and i.op == ("load" if role == "read" else "store"):
            a = i.ops[0 if role == "read" else 1]
            if based(a, args[0]):
                t = i.type if role == "read" else i.ops[0].type
                g = a
                while g.kind == "inst" and g.op in ("bitcast", "freeze"):
                    g = g.ops[0]
                if not (g.kind == "inst" and g.op == "gep" and g.ops[0] is args[0] and g.srctype == t and len(g.ops) == 2 and
                        strip(g.ops[1]) is args[1]):
                    prob = (i, "position", "the element read or written is not the one with the given number")
        elif role == "size" and i.op == "ret":
            for s in values(i.ops[0], edges, tag, val):
                types.add(s)
                where = where or i
            continue
        if t:
            types.add(t)
            where = where or i
    return types, where, prob


def strip(v):
    while v.kind == "inst" and v.op in ("sext", "zext", "freeze"):
        v = v.ops[0]
    return v


BUF = {"spasm_schur_dense": (5, 6), "spasm_schur_dense_randomized": (5, 6), "spasm_ffpack_rref": (3, 5), "spasm_ffpack_LU": (3, 5),
       "spasm_datatype_read": (0, 2), "spasm_datatype_write": (0, 2)}


def tagged(rep, M):
    """every operation on one dense block is told the same element type, which is the one chosen for the modulus"""
    for u in pts.units(M):
        S = None
        by = {}
        for i in u.insts():
            if i.op == "call" and i.callee_name() in BUF:
                S = S or sym.Sym(u, M)
                p, d = BUF[i.callee_name()]
                ls = u.of(i.ops[p])
                if len(ls) != 1:
                    continue
                (root, path), = ls
                if root[0] not in ("call", "alloca", "arg"):
                    continue
                by.setdefault((root, path), []).append((i, tag_of(u, S, i.ops[d])))
        for k, uses in by.items():
            ts = [t for _, t in uses]
            common = max(ts, key=ts.count)
            for i, t in uses:
                if t == common:
                    rep.ok("tag", u.fn.name, "%s %s" % (i.loc, i.callee_name()))
                else:
                    rep.bad("tag", i, "%s/%s" % (u.fn.name, i.callee_name()), "%s is told the element type %s for a dense block on which the other "
                            "operations work with %s" % (i.callee_name(), shown(t), shown(common)))


def shown(t):
    return "chosen for the modulus %s" % sym.show(t[1]) if isinstance(t, tuple) and t and t[0] == "chosen" else sym.show(t)


def tag_of(u, S, v):
    w = u.resolve(v)
    if w.kind == "inst" and w.op == "call" and w.callee_name() == "spasm_datatype_choose":
        return ("chosen", S.t(w.ops[0]))
    return S.t(v)


def check(b, rep):
    rep.rule("modulus", "on every path of the choice of the element type, the moduli that take this path are supported by the dense library "
             "for that type (limit read from the library's headers)")
    rep.rule("element", "for each type tag, elimination, LU, reading, writing and the element size use the same element type, at the "
             "position given")
    rep.rule("tag", "all operations on one dense block are given the same type tag")
    rep.expl = ("The choice of the type is evaluated path by path over all moduli (linear arithmetic); the dispatching functions are pruned for "
                "each tag, and the element types of the remaining calls, loads and stores compared.")
    lim = limits(b)
    M = b.lib(keep=set(p11.API) - {"spasm_get_prime", "spasm_max", "spasm_min"})
    FM = b.ffmod()
    fns = {}
    for m in (M, FM):
        for n, f in m.functions.items():
            if f.blocks:
                fns.setdefault(n, f)
    # the moduli accepted
    try:
        rng, _, _ = p11.modulus(M, fns["spasm_field_init"], rep)
    except (p11.Skip, p11.Flaw):
        rng = (2, (1 << 32) - 1)
    f = fns.get("spasm_datatype_choose")
    paths = []                   # (facts, tag, ret)
    if f is not None:
        ev = p11.Eval(M, f, None, {"mag": {"p": {1: p11.Q(1)}, "h": {1: p11.Q(1, 2)}}, "range": rng, "field": None})
        st = p11.State()
        st.facts += p11.base_facts(*rng)
        st.env[f.args[0]] = p11.I(p11.pa("p"))
        try:
            ev.run(st)
            for s, t, v in ev.rets:
                if ln.infeasible(s.facts):
                    continue
                if v is None or v.kind != "i" or not p11.isc(v.p):
                    raise p11.Skip("tag")
                paths.append((s, v.p.get((), 0), t))
        except (p11.Skip, p11.Flaw) as e:
            rep.ok("modulus", f.name, "not decided: %s" % e)
            paths = []
    tags = sorted({t for _, t, _ in paths}) or [0, 1, 2]
    roles = [("spasm_ffpack_rref", "dense", 5), ("spasm_ffpack_LU", "dense", 5), ("spasm_datatype_read", "read", 2),
             ("spasm_datatype_write", "write", 2), ("spasm_datatype_size", "size", 0)]
    meaning = {}
    sizes = {}
    for tag in tags:
        seen = {}
        for name, role, k in roles:
            fn = fns.get(name)
            if fn is None:
                continue
            types, where, prob = element(fn, role, fn.args[k], tag, fn.args)
            if prob:
                rep.bad("element", prob[0], name + "/" + prob[1], "%s: %s" % (name, prob[2]))
            if role == "size":
                sizes[tag] = (types, where, name)
                continue
            if not types:
                rep.bad("element", fn.blocks[0].term, "%s/tag%d" % (name, tag), "%s does nothing for type tag %d, which the choice of the type "
                        "can deliver" % (name, tag))
            elif len(types) > 1:
                rep.bad("element", where, "%s/tag%d" % (name, tag), "%s mixes the element types %s for type tag %d" % (name, ", ".join(sorted(types)), tag))
            else:
                seen[name] = (next(iter(types)), where)
                rep.ok("element", name, "tag %d: %s" % (tag, next(iter(types))))
        filled = {}
        for u in pts.units(M, ["spasm_schur_dense", "spasm_schur_dense_randomized"]):
            filled[u.fn.name] = stored(u, u.fn.args[6], tag, 5)
            types, where, strides = filled[u.fn.name]
            if len(types) == 1:
                seen[u.fn.name] = (next(iter(types)), where)
            elif types:
                rep.bad("element", where, "%s/tag%d" % (u.fn.name, tag), "%s stores elements of types %s for type tag %d" %
                        (u.fn.name, ", ".join(sorted(types)), tag))
        vals = [t for t, _ in seen.values()]
        if vals:
            common = max(sorted(set(vals)), key=vals.count)
            meaning[tag] = common
            for name, (t, w) in seen.items():
                if t != common:
                    rep.bad("element", w, "%s/tag%d" % (name, tag), "%s uses elements of type %s for type tag %d; the other operations use %s" %
                            (name, t, tag, common))
            for name, (types, where, strides) in filled.items():
                for g in strides:
                    if SIZE[g.srctype] != SIZE[common]:
                        rep.bad("element", g, "%s/stride/tag%d" % (name, tag), "%s moves by elements of type %s in a block of %s (type tag %d)" %
                                (name, g.srctype, common, tag))
                rep.ok("element", name, "tag %d: %d address computations" % (tag, len(strides)))
            if tag in sizes:
                ts, w, name = sizes[tag]
                if None not in ts and ts and ts != {SIZE[common]}:
                    rep.bad("element", w, "%s/tag%d" % (name, tag), "%s gives %s bytes for type tag %d, whose elements (%s) have %d" %
                            (name, sorted(ts), tag, common, SIZE[common]))
                else:
                    rep.ok("element", name, "tag %d: %s bytes" % (tag, sorted(map(str, ts))))
    tagged(rep, M)
    for s, tag, t in paths:
        ty = meaning.get(tag)
        if ty is None or ty not in lim:
            continue
        if ln.prove(s.facts, ladd(lconst(lim[ty]), latom("p"), -1)):
            rep.ok("modulus", "spasm_datatype_choose", "%s for moduli up to %d" % (ty, lim[ty]))
        else:
            rep.bad("modulus", t, "limit/" + ty, "elements of type %s are chosen for moduli above %d, which the dense library does not support" %
                    (ty, lim[ty]))


if __name__ == "__main__":
    sys.exit(run("P26", check))
