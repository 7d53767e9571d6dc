"""P35: every command-line option changes the setting its name announces, and nothing else."""
from common import *
import nest
import options
import pts
import sym
from options import plain
from p34 import Tool
from p27 import Bad

FLAG, FILE, INT, REAL = "flag", "file name", "integer", "real number"
# field of struct echelonize_opts set by each option
E = {"no-greedy-pivot-search": (FLAG, 0), "no-low-rank-mode": (FLAG, 1), "no-dense-mode": (FLAG, 2), "no-GPLU": (FLAG, 3),
     "min-pivot-proportion": (REAL, 6), "max-iterations": (INT, 7), "dense-threshold": (REAL, 8),
     "sparsity-threshold": (REAL, 8), "dense-block-size": (INT, 9), "min-rank-ratio": (REAL, 10),
     "max-aspect-ratio": (REAL, 11), "low-rank-start-weight": (INT, 12)}
COMMON = ["no-low-rank-mode", "no-dense-mode", "no-GPLU", "max-iterations", "dense-threshold", "min-pivot-proportion",
          "dense-block-size", "min-rank-ratio", "max-aspect-ratio"]
INPUT = {"matrix": (FILE, None, 0), "modulus": (INT, None, 42013)}
SPEC = {
    "rank": (dict(INPUT, **{"no-transpose": (FLAG,), "certificate": (FLAG,), "output": (FILE, None, 0)}), COMMON),
    "kernel": (dict(INPUT, **{"left": (FLAG,), "output": (FILE, None, 0)}), COMMON),
    "solve": (dict(INPUT, **{"rhs": (FILE, None, 0), "output": (FILE, None, 0)}), COMMON),
    "check_cert": (dict(INPUT, **{"certificate": (FILE, None, 0)}), []),
    "echelonize": ({"modulus": (INT, None, 42013), "rref": (FLAG,)},
                   ["no-greedy-pivot-search", "no-low-rank-mode", "dense-block-size", "low-rank-start-weight",
                    "sparsity-threshold"]),
    "bitmap": ({"gray": (FLAG,), "width": (INT,), "height": (INT,), "mpixels": (REAL,)}, []),
}
WIDE = {"modulus"}
SHORT = {"rank": "matrix:m modulus:p no-transpose:t certificate:c output:o", "kernel": "matrix:m modulus:p left:l output:o",
         "solve": "matrix:m modulus:p rhs:r output:o", "check_cert": "matrix:m modulus:p certificate:c"}


def fits(kind, want):
    if want == FLAG:
        return kind[0] == "const"
    if want == FILE:
        return kind == options.TEXT
    if want == INT:
        return kind[0] == "int"
    return kind == ("real",)


def field(t, pl):
    """number of the field of echelonize_opts at that place; None elsewhere"""
    if pl[0] == "off":
        for base, f in t.opts.inits:
            if f != "spasm_echelonize_init_opts" or base[0] != "off":
                continue
            for k in range(len(t.M.structs["%struct.echelonize_opts"])):
                if base[1] + options.field_off(t.M, "%struct.echelonize_opts", k)[0] == pl[1]:
                    return k
    if pl[0] == "at":
        for a in t.echopts:
            if pl[1] == a:
                return 0
            if pl[1][0] == "fld" and pl[1][1] == a and pl[1][2] == "echelonize_opts":
                return pl[1][3]
    return None


def option(t, name, want):
    o = t.opts.opts.get(name)
    if o is None:
        raise Bad(t.name, "option --%s is gone" % name)
    where = [e[2].loc for e in o.effects if getattr(e[2], "loc", None)]
    where = where[0] if where else o.fn
    if not o.ok:
        raise Bad(where, "option --%s is not accepted" % name)
    arg = want[0] != FLAG
    if o.hasarg != arg:
        raise Bad(where, "option --%s %s" % (name, "takes no value" if arg else "demands a value"))
    eff = {}
    for pl, k, i in o.effects:
        eff.setdefault(pl, []).append((k, i))
    if len(eff) != 1:
        raise Bad(where, "option --%s changes %d settings" % (name, len(eff)))
    (pl, ks), = eff.items()
    if len({k for k, _ in ks}) != 1 or len(ks) < o.ways:
        raise Bad(where, "option --%s does not always have the same effect" % name)
    k = ks[0][0]
    if not fits(k, want[0]):
        raise Bad(where, "option --%s stores %s, not a %s" % (name, k, want[0]))
    if name in WIDE and k[1] < 64:
        raise Bad(where, "the value of --%s is cut to %d bits" % (name, k[1]))
    return o, pl, k


def tool(t, rep, spec, common):
    if t.opts is None:
        raise Bad(t.name, "the tool reads no option")
    for w, m in t.opts.problems:
        raise Bad(w, m)
    taken, keys = {}, {}
    n = 0
    for name, want in sorted(spec.items()) + sorted((c, E[c]) for c in common):
        o, pl, k = option(t, name, want)
        if pl in taken:
            raise Bad(o.fn, "options --%s and --%s change the same setting" % (name, taken[pl]))
        if o.key in keys:
            raise Bad(o.fn, "options --%s and --%s have the same key" % (name, keys[o.key]))
        taken[pl], keys[o.key] = name, name
        f = field(t, pl)
        d = t.opts.default(pl)
        if name in common:
            if f != want[1]:
                raise Bad(o.fn, "option --%s sets field %s of the options of the factorization, not %d" % (
                    name, f, want[1]))
            if want[0] == FLAG and k != ("const", 0):
                raise Bad(o.fn, "option --%s does not disable anything" % name)
        else:
            if f is not None:
                raise Bad(o.fn, "option --%s sets an option of the factorization" % name)
            if want[0] == FLAG:
                if d is None or d[0] != "const" or d == k:
                    raise Bad(o.fn, "option --%s has no effect" % name)
            if len(want) > 2 and d != ("const", want[2]):
                raise Bad(o.fn, "without --%s its setting is %s" % (name, d))
        rep.ok(t.name, o.where, "--%s: %s" % (name, want[0]))
        n += 1
    for name, o in t.opts.opts.items():
        if name in spec or name in common:
            continue
        for pl in o.places():
            if pl in taken:
                raise Bad(o.fn, "options --%s and --%s change the same setting" % (name, taken[pl]))
    for x in SHORT.get(t.name, "").split():
        name, letter = x.split(":")
        if t.opts.opts[name].key != ord(letter):
            raise Bad(t.opts.opts[name].fn, "-%s is not the short form of --%s" % (letter, name))
    if common:
        early(t)
    return n


def early(t):
    """defaults are set before the options are read, and not again"""
    if isinstance(t.opts, options.Argp):
        if not any(f == "spasm_echelonize_init_opts" for _, f in t.opts.inits):
            raise Bad(t.name, "the options of the factorization have no default value")
    for p in t.T.top():
        read, init = False, isinstance(t.opts, options.Argp)
        for e in p.events:
            if isinstance(e, nest.Store):
                continue
            if e[0] == "call" and e[1] == "spasm_echelonize_init_opts":
                if read:
                    raise Bad(e[3].loc, "the options given are replaced by default values")
                init = True
            if e[0] == "call" and e[1] == "argp_parse" or e[0] == "loop" and t.opts.call.block in e[1].blocks:
                if not init:
                    raise Bad(t.name, "default values are not set before the options are read")
                read = True


def defaults(b, rep):
    M = b.lib()
    fs = [u for u in pts.units(M, ["spasm_echelonize_init_opts"])]
    if not fs:
        raise Broken("spasm_echelonize_init_opts is gone")
    u = fs[0]
    T = nest.Tree(u, u.fn, sym.Sym(u, M), lambda c: None, lambda t: None)
    for p in T.top():
        got = set()
        for e in p.events:
            if isinstance(e, nest.Store):
                a = plain(e.addr)
                if a == ("arg", 0):
                    got.add(0)
                elif a[0] == "fld" and a[1] == ("arg", 0):
                    got.add(a[3])
            elif e[0] == "call" and e[1] in ("memset", "llvm.memset.p0.i64", "memcpy", "llvm.memcpy.p0.p0.i64") \
                    and plain(e[2][0]) == ("arg", 0):
                got |= set(range(len(M.structs["%struct.echelonize_opts"])))
        for k in range(len(M.structs["%struct.echelonize_opts"])):
            if k not in got:
                rep.bad("defaults", u.fn.name, str(k), "field %d of the options keeps whatever it contained" % k)
            else:
                rep.ok("defaults", u.fn.name, "field %d" % k)


def check(b, rep):
    rep.expl = ("The option tables given to argp or getopt_long are read from the program text; the code that handles each key "
                "is executed symbolically for that key, which gives the settings written and the values stored.")
    for n in SPEC:
        rep.rule(n, "every documented option of %s is accepted and sets exactly its setting" % n)
    rep.rule("defaults", "every field of the options of the factorization has a default value")
    defaults(b, rep)
    for n, (spec, common) in SPEC.items():
        if n not in b.tool_names():
            raise Broken("tool %s is gone" % n)
        try:
            tool(Tool(b, n), rep, spec, common)
        except Bad as e:
            rep.bad(n, str(e.where), n, e.msg)
    for n, (spec, common) in SPEC.items():
        rep.need(n, len(spec) + len(common))
    rep.assumptions.append("argp and getopt_long behave as documented")


if __name__ == "__main__":
    sys.exit(run("P35", check))
