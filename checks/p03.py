"""P03: a refused memory request or file opening never goes unnoticed."""
from common import *
import pts
import esp
from effects import FORKS
from api import API

SOURCES = {"malloc", "calloc", "realloc", "aligned_alloc", "reallocarray", "strdup", "strndup", "fopen", "fdopen",
           "freopen", "tmpfile", "popen", "memalign", "valloc"}
SIZES = {"malloc": (0,), "calloc": (0, 1), "realloc": (1,), "reallocarray": (1, 2), "aligned_alloc": (1,)}
HARMLESS = {"free", "realloc"}
WRAPPERS = {"spasm_malloc", "spasm_calloc", "spasm_realloc"}
NULLSET = frozenset(["null"])


class Null(esp.Client):
    def __init__(self, u, fn, site):
        self.u, self.fn, self.site = u, fn, site
        self.msgs = {}
        self.uses = 0

    def key(self, q, env):
        x = env.v.get(self.site)
        z = tuple(env.v.get(self.site.ops[k]) == esp.iv(0, 0) for k in SIZES.get(self.site.callee_name(), ()))
        return (tuple(sorted(map(str, x[1]))) if x else None, z)

    def keep(self, v):
        return v is self.site or v in self.site.ops

    def arg(self, v):
        return ("p", frozenset([("arg", v.idx), "null"])) if v.type == "ptr" else None

    def call(self, e, i, env):
        if i is self.site:
            return ("p", frozenset(["R", "null"]))
        if i.type == "ptr":
            return ("p", frozenset([("call", i.id), "null"]))
        return None

    def st(self, e, v, env):
        x = e.val(v, env)
        if not x or x[0] != "p":
            return None
        if "R" not in x[1]:
            # known to be NULL because the request was refused
            return "maybe" if x[1] == NULLSET and self.refused(env) and any(
                r == ("call", self.site) and not p for r, p in self.u.of(v)) else None
        return "maybe" if "null" in x[1] else "ok"

    def refused(self, env):
        return env.v.get(self.site) == ("p", NULLSET)

    def empty(self, e, env):
        """an allocator may answer NULL to a request of size zero"""
        return any(e.val(self.site.ops[k], env) == esp.iv(0, 0) for k in SIZES.get(self.site.callee_name(), ()))

    def unnoticed(self, e, env, i, what):
        if self.refused(env) and not self.empty(e, env):
            self.msgs.setdefault(i.loc, "%s although %s at %s answered NULL" % (
                what, self.site.callee_name(), self.site.loc))

    def chk(self, e, v, env, i, what):
        s = self.st(e, v, env)
        if s:
            self.uses += 1
        if s == "maybe":
            self.msgs.setdefault(i.loc, "result of %s at %s may be NULL when it is %s" % (
                self.site.callee_name(), self.site.loc, what))

    def inst(self, e, q, i, env):
        if i.op == "load":
            self.chk(e, i.ops[0], env, i, "read through")
        elif i.op == "store":
            self.chk(e, i.ops[1], env, i, "written through")
            if i.ops[0].type == "ptr":
                ls = self.u.of(i.ops[1])
                if not (ls and all(r[0] == "alloca" and not p for r, p in ls)):
                    self.chk(e, i.ops[0], env, i, "stored")
        elif i.op in ("atomicrmw", "cmpxchg"):
            self.chk(e, i.ops[0], env, i, "written through")
        elif i.op == "call":
            n = i.callee_name()
            if n in ("exit", "_exit", "quick_exit", "err", "errx", "verr", "verrx", "errc") and e.val(i.ops[0], env) == esp.iv(0, 0):
                self.unnoticed(e, env, i, "the program reports success")
            if n in FORKS or n in HARMLESS or (n or "").startswith("llvm.dbg"):
                return [(q, env)]
            for o in i.ops:
                if o.type == "ptr":
                    self.chk(e, o, env, i, "passed to %s" % n)
        return [(q, env)]

    def ret(self, e, q, t, env):
        if t.ops and t.ops[0].type == "ptr":
            s = self.st(e, t.ops[0], env)
            if s:
                self.uses += 1
            if s == "maybe" and not self.empty(e, env):
                self.msgs.setdefault(t.loc, "result of %s at %s may be NULL when it is returned" % (
                    self.site.callee_name(), self.site.loc))
        if self.fn.name in WRAPPERS:
            self.unnoticed(e, env, t, "%s returns" % self.fn.name)
        elif self.fn.name == "main" and t.ops and e.val(t.ops[0], env) == esp.iv(0, 0):
            self.unnoticed(e, env, t, "the program reports success")


def check(b, rep):
    rep.expl = ("Nullness property simulation over every call of a raw allocator or file opener in the library and in "
                "every tool (helpers inlined): each use on each feasible path is separated from the call by a test that "
                "excludes NULL. The checked wrappers themselves are covered by the same rule, so their results are "
                "taken as non-NULL elsewhere.")
    rep.rule("tested-before-use", "no feasible path uses the result of an allocator/opener that may be NULL")
    rep.rule("wrapper-only", "library code outside the wrappers obtains memory through spasm_malloc/calloc/realloc")
    rep.assumptions = ["assert() is enabled (the project never defines NDEBUG)"]
    n = 0

    def one(u, rep, where):
        k = 0
        for fn in u.fns:
            for i in fn.calls():
                if i.callee_name() in SOURCES:
                    k += 1
                    cl = Null(u, fn, i)
                    e = esp.Esp(u, fn, cl).run()
                    if e.overflow:
                        raise Broken("state explosion in " + fn.name)
                    if cl.msgs:
                        for loc, m in cl.msgs.items():
                            rep.bad("tested-before-use", loc, "%s:%s:%s" % (where, i.callee_name(), i.name), m)
                    else:
                        rep.ok("tested-before-use", i.loc, "%s: %s, %d uses" % (where, i.callee_name(), cl.uses))
        return k
    M = b.lib()
    for u in pts.units(M):
        n += one(u, rep, u.fn.name)
        for fn in u.fns:
            for i in fn.calls("spasm_malloc", "spasm_calloc", "spasm_realloc"):
                rep.ok("wrapper-only", i.loc, u.fn.name)
    for t in b.tool_names():
        M = b.tool(t)
        for u in pts.units(M):
            n += one(u, rep, t)
    rep.need("tested-before-use", 5)
    rep.need("wrapper-only", 40)


if __name__ == "__main__":
    sys.exit(run("P03", check))
