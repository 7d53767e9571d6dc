"""P01: read-only inputs are never changed, resized or freed, nor kept by the result."""
from common import *
import pts
import cfg
import esp
from effects import WRITES, STREAMS, RELEASES, written_positions, call_effects, FORKS, EXT_WRITES
from api import API

# arguments that are outputs or are documented as modified: see engine/effects.py (WRITES)


class Origin(esp.Client):
    """propagates the origin (argument / fresh call result) of pointers along feasible paths"""

    def __init__(self, unit, site, ptr, slice_):
        self.u = unit
        self.site = site
        self.ptr = ptr
        self.slice = slice_
        self.found = set()

    def key(self, q, env):
        return tuple(sorted((repr(p), tuple(sorted(map(str, env.v[p][1]))) if p in env.v else ()) for p in self.slice
                            if p.op == "phi"))

    def keep(self, v):
        return v in self.slice

    def arg(self, v):
        if v.type == "ptr":
            return ("p", frozenset([("arg", v.idx), "null"])) if v.fn is self.u.fn else None
        return None

    def call(self, e, i, env):
        if i.type == "ptr":
            return ("p", frozenset([("call", i.loc)]))
        return None

    def inst(self, e, q, i, env):
        if i is self.site:
            x = e.val(self.ptr, env)
            self.found |= set(x[1]) if x else {"?"}
        return [(q, env)]


def ptr_slice(u, v):
    out, st = set(), [v]
    while st:
        x = st.pop()
        if x in out or x.kind != "inst":
            continue
        out.add(x)
        if x.op in ("phi", "select", "gep", "freeze", "bitcast"):
            st.extend(o for o in x.ops if o.type == "ptr")
        elif x.op == "load":
            y = u.resolve(x)
            if y is not x:
                st.append(y)
    return out


def base_of(u, p):
    """walk from an address to the pointer value it is derived from: list of (pointer value)"""
    return p


def check(b, rep):
    rep.expl = ("Whole-program effect analysis: every store, atomic, memory-writing library call and release in every "
                "public operation (helpers inlined, parallel bodies included) is traced to the object it may reach; "
                "none may reach an object received through a read-only argument. Ambiguous origins (loop-carried "
                "pointers) are separated along feasible paths by property simulation.")
    rep.rule("no-write-through-readonly", "a store/atomic/external write does not reach a read-only argument")
    rep.rule("no-release-of-readonly", "a release or reallocation does not reach a read-only argument")
    rep.rule("no-mutating-call-on-readonly", "a read-only argument is not passed where a callee may modify it")
    rep.rule("result-does-not-alias-readonly", "storage of a read-only argument is not linked into a result object")
    rep.assumptions = ["public operations modify only the arguments listed in engine/effects.py; each is checked "
                       "against that list here", "FILE streams are not inputs in the sense of this property"]
    M = b.lib()
    known = set(API)
    us = pts.units(M)
    nfun = 0
    for u in us:
        fn = u.fn
        if fn.name not in known:
            continue
        nfun += 1
        wr = set(WRITES.get(fn.name, set())) | STREAMS.get(fn.name, set())
        ro = {a.idx for a in fn.args if a.type == "ptr" and a.idx not in wr}
        if fn.name in ("spasm_malloc", "spasm_calloc"):
            ro = set()
        if not ro and fn.name not in WRITES:
            pass

        def hits(locs):
            return sorted({l for l in locs if l[0][0] == "arg" and l[0][1] in ro}, key=str)

        def report(i, rule, ptrv, h, what):
            # is the bad origin feasible at this site?
            sl = ptr_slice(u, ptrv)
            phis = [x for x in sl if x.op == "phi" or x.op == "select"]
            if phis and i.fn is fn:
                # the argument reaches the site through a merge: look at feasible paths only
                direct = root_phi(u, ptrv)
                if direct is not None:
                    cl = Origin(u, i, direct, sl)
                    e = esp.Esp(u, fn, cl).run()
                    bad = {("arg", l[0][1]) for l in h}
                    if not e.overflow and not (cl.found & bad) and "?" not in cl.found:
                        rep.ok(rule, i.loc, "%s: infeasible origin excluded (%s)" % (fn.name, what))
                        return
            rep.bad(rule, i.loc, "%s:%s:%s" % (fn.name, i.op if i.op != "call" else i.callee_name(),
                                               ",".join(sorted({"arg%d" % l[0][1] for l in h}))),
                    "%s %s the read-only input #%s (%s)" % (fn.name, what, "/".join(str(l[0][1] + 1) for l in h),
                                                           "; ".join(pts.loc_str(l) for l in h)))

        def root_phi(u, v):
            # strip geps/loads down to the merge that mixes origins
            seen = 0
            while v.kind == "inst" and seen < 20:
                seen += 1
                if v.op in ("phi", "select"):
                    return v
                if v.op in ("gep", "bitcast", "freeze"):
                    v = v.ops[0]
                elif v.op == "load":
                    y = u.resolve(v)
                    v = y if y is not v else v.ops[0]
                else:
                    return None
            return None

        for i in u.insts():
            if i.op == "store":
                h = hits(u.of(i.ops[1]))
                if h:
                    report(i, "no-write-through-readonly", i.ops[1], h, "writes into")
                else:
                    rep.ok("no-write-through-readonly", i.loc, fn.name)
                v = i.ops[0]
                if v.type == "ptr" and u.of(v):
                    hv = hits(u.of(v))
                    if hv:
                        dst = [l for l in u.of(i.ops[1]) if l[0][0] in ("call", "arg", "glob")]
                        if dst:
                            rep.bad("result-does-not-alias-readonly", i.loc, "%s:%s" % (fn.name, pts.loc_str(hv[0])),
                                    "%s links storage of a read-only input (%s) into %s" % (
                                        fn.name, pts.loc_str(hv[0]), pts.loc_str(dst[0])))
                        else:
                            rep.ok("result-does-not-alias-readonly", i.loc, fn.name)
            elif i.op in ("atomicrmw", "cmpxchg"):
                h = hits(u.of(i.ops[0]))
                if h:
                    report(i, "no-write-through-readonly", i.ops[0], h, "atomically updates")
                else:
                    rep.ok("no-write-through-readonly", i.loc, fn.name)
            elif i.op == "call":
                n = i.callee_name()
                if n is None:
                    rep.bad("no-mutating-call-on-readonly", i.loc, fn.name + ":indirect", "call through a pointer in " +
                            fn.name)
                    continue
                if n in FORKS:
                    continue
                for p in sorted(written_positions(n, len(i.ops))):
                    if p < len(i.ops) and i.ops[p].type == "ptr":
                        rel = RELEASES.get(n) == p
                        rule = "no-release-of-readonly" if rel else (
                            "no-mutating-call-on-readonly" if n in WRITES else "no-write-through-readonly")
                        h = hits(u.of(i.ops[p]))
                        if h:
                            report(i, rule, i.ops[p], h, "releases" if rel else "passes to %s, which modifies it," % n)
                        else:
                            rep.ok(rule, i.loc, "%s -> %s" % (fn.name, n))
                # returned object aliasing
            elif i.op == "ret" and i.ops and i.fn is fn and i.ops[0].type == "ptr":
                h = hits(u.of(i.ops[0]))
                if h:
                    rep.bad("result-does-not-alias-readonly", i.loc, fn.name + ":ret",
                            "%s returns a pointer into a read-only input" % fn.name)
                else:
                    rep.ok("result-does-not-alias-readonly", i.loc, fn.name)
    rep.extra["functions"] = nfun
    if nfun < 60:
        raise Broken("only %d public operations found" % nfun)
    rep.need("no-write-through-readonly", 150)
    rep.need("no-release-of-readonly", 60)


if __name__ == "__main__":
    sys.exit(run("P01", check))
