"""P02: every block allocated by an operation is released exactly once or handed to the caller."""
from common import *
import pts
import cfg
import esp
import nest
import sym
from effects import RELEASES, FORKS
from api import API

# producers of a block / object owned by the caller, and the release operations that fit
RAW = {"malloc", "calloc", "realloc", "spasm_malloc", "spasm_calloc", "spasm_realloc", "strdup", "aligned_alloc"}
OBJ = {
    "spasm_csr_alloc": "spasm_csr_free", "spasm_transpose": "spasm_csr_free", "spasm_submatrix": "spasm_csr_free",
    "spasm_permute": "spasm_csr_free", "spasm_compress": "spasm_csr_free", "spasm_schur": "spasm_csr_free",
    "spasm_rref": "spasm_csr_free", "spasm_kernel": "spasm_csr_free", "spasm_kernel_from_rref": "spasm_csr_free",
    "spasm_gesv": "spasm_csr_free",
    "spasm_triplet_alloc": "spasm_triplet_free", "spasm_triplet_load": "spasm_triplet_free",
    "spasm_dm_alloc": "spasm_dm_free", "spasm_dulmage_mendelsohn": "spasm_dm_free",
    "spasm_strongly_connected_components": "spasm_dm_free",
    "spasm_echelonize": "spasm_lu_free",
    "spasm_pinv": "free", "spasm_random_permutation": "free", "spasm_permute_row_matching": "free",
    "spasm_permute_column_matching": "free", "spasm_submatching": "free",
    "spasm_certificate_rank_create": "free-certificate",
}
FREES = {"free", "spasm_csr_free", "spasm_triplet_free", "spasm_dm_free", "spasm_lu_free"}
REALLOC = {"realloc", "spasm_realloc"}


def producer(n):
    if n in RAW:
        return "free"
    return OBJ.get(n)


class Own(esp.Client):
    """q: 'U' not tracking, 'L' live and owned here, 'F' released, 'E' handed over."""

    def __init__(self, rep, unit, fn, site, kind):
        self.rep, self.u, self.fn, self.site, self.kind = rep, unit, fn, site, kind
        self.msgs = {}
        self.tracked = False
        self.ended = 0

    def say(self, key, i, msg):
        self.msgs.setdefault((key, i.loc), msg)

    def init(self, e, env):
        return ["U"]

    def key(self, q, env):
        return ()

    def keep(self, v):
        return False

    def arg(self, v):
        return ("p", frozenset([("arg", v.idx), "null"])) if v.type == "ptr" else None

    def load(self, e, i, env):
        return None

    def call(self, e, i, env):
        if i.type == "ptr":
            n = i.callee_name()
            if i is self.site:
                return None            # decided in inst()
            if producer(n):
                return ("p", frozenset([("call", i.id)]))
            return None
        return None

    def has(self, e, v, env):
        x = e.val(v, env)
        return bool(x and x[0] == "p" and "R" in x[1])

    def must(self, e, v, env):
        x = e.val(v, env)
        return bool(x and x[0] == "p" and x[1] == frozenset(["R"]))

    def inst(self, e, q, i, env):
        op = i.op
        # --- uses of the tracked block
        if q == "F":
            if op in ("load", "store"):
                p = i.ops[1] if op == "store" else i.ops[0]
                if self.must(e, p, env):
                    self.say("use-after-release", i, "block from %s is used after its release" % self.site.loc)
            elif op == "call":
                n = i.callee_name()
                for k, o in enumerate(i.ops):
                    if o.type == "ptr" and self.must(e, o, env):
                        if RELEASES.get(n) == k:
                            self.say("double-release", i, "block from %s is released twice" % self.site.loc)
                        elif n not in ("__kmpc_fork_call",):
                            self.say("use-after-release", i, "block from %s is passed to %s after its release" % (
                                self.site.loc, n))
        if q == "L":
            if op == "call":
                n = i.callee_name()
                for k, o in enumerate(i.ops):
                    if o.type == "ptr" and RELEASES.get(n) == k and self.has(e, o, env):
                        if not self.fits(n):
                            self.say("wrong-release", i, "object from %s (%s) is released with %s" % (
                                self.site.loc, self.site.callee_name(), n))
                        q = "F"
                        break
                if q == "L" and n in FORKS:
                    if self.fork_releases(i, e, env):
                        q = "F"
            elif op == "store":
                if self.has(e, i.ops[0], env):
                    if not self.local_dest(i.ops[1]):
                        q = "H" if self.uncovered_dest(i.ops[1]) else "E"
        elif q == "H":
            if op == "call":
                n = i.callee_name()
                for k, o in enumerate(i.ops):
                    if o.type == "ptr" and RELEASES.get(n) == k and (self.has(e, o, env) or any(
                            len(p) >= 2 and p[-1] == "*" and p[-2] in UNCOVERED for _, p in self.u.of(o))):
                        q = "F"
        if i is self.site:
            if q != "U":
                env.v[i] = ("p", frozenset([("call", i.id)]))
                return [(q, env)]
            self.tracked = True
            e2 = env.copy()
            env.v[i] = ("p", frozenset(["R"]))
            e2.v[i] = ("p", frozenset([("call", i.id)]))
            return [("L", env), ("U", e2)]
        return [(q, env)]

    def fits(self, n):
        k = self.kind
        if k == "free":
            return n in ("free", "realloc", "spasm_realloc")
        if k == "free-certificate":
            return True
        return n == k

    def local_dest(self, p):
        """is the destination of a pointer store a local variable of this very function?"""
        ls = self.u.of(p)
        return bool(ls) and all(r[0] == "alloca" and not path and r[1].fn is self.fn for r, path in ls)

    def uncovered_dest(self, p):
        ls = self.u.of(p)
        return bool(ls) and all(r[0] in ("call", "alloca") and path and path[-1] in UNCOVERED for r, path in ls)

    def fork_releases(self, i, e, env):
        return False

    def ret(self, e, q, t, env):
        if q == "H":
            self.say("leak", t, "block allocated at %s by %s (%s) is kept in a component that no destructor releases "
                     "and is not released on a path returning here" % (
                         self.site.loc, self.site.callee_name(), self.fn.name))
        if q == "L":
            if t.ops and self.has(e, t.ops[0], env):
                return
            self.say("leak", t, "block allocated at %s by %s (%s) is not released on a path returning here" % (
                self.site.loc, self.site.callee_name(), self.fn.name))
        self.ended += 1


# destructor contract: struct -> (release function, pointer fields it must release)
DESTROY = {
    "spasm_csr_free": ("struct.spasm_csr", {3: "p", 4: "j", 5: "x"}),
    "spasm_triplet_free": ("struct.spasm_triplet", {4: "i", 5: "j", 6: "x"}),
    "spasm_dm_free": ("struct.spasm_dm", {0: "p", 1: "q", 2: "r", 3: "c"}),
    "spasm_lu_free": ("struct.spasm_lu", {2: "L", 3: "U", 4: "qinv", 5: "p"}),
}


# components that are internal to one operation: their destructor does not release them
UNCOVERED = {("f", "struct.spasm_lu", 6)}
COVERED = {("f", st, f) for st, fs in DESTROY.values() for f in fs}


def component_rules(u, rep):
    """raw release of an object that owns components; release of a component behind its owner's back"""
    fn = u.fn
    owned = {}        # call inst -> set of component steps holding fresh blocks
    for i in u.insts():
        if i.op == "store" and i.ops[0].type == "ptr":
            fresh = [l for l in u.of(i.ops[0]) if l[0][0] == "call" and not l[1] and producer(l[0][1].callee_name() or "")]
            if not fresh:
                continue
            for root, path in u.of(i.ops[1]):
                if root[0] == "call" and len(path) == 1 and path[0] in COVERED:
                    owned.setdefault(root[1], set()).add(path[0])
    frees = [c for f in u.fns for c in f.calls("free")]
    freed = set()
    for c in frees:
        freed |= u.of(c.ops[0])
    for c in frees:
        for root, path in u.of(c.ops[0]):
            if root[0] == "call" and not path and root[1] in owned:
                for st in sorted(owned[root[1]]):
                    if ((root, (st, "*")) in freed) or any(
                            l in freed for l in u.store.get((root, (st,)), ())):
                        rep.ok("component-release", c.loc, fn.name)
                    else:
                        rep.bad("component-release", c.loc, "%s:%s%d" % (fn.name, st[1], st[2]),
                                "%s releases an object without releasing its component (%s field %d)" % (
                                    fn.name, st[1], st[2]))
            if fn.name not in DESTROY and len(path) >= 2 and path[-1] == "*" and path[-2] in COVERED:
                owner = (root, path[:-2])
                # fine if the owner itself is released raw here, or the field is overwritten afterwards
                over = any(s.op == "store" and (root, path[:-1]) in u.of(s.ops[1]) and cfg.path_inst(c, s)
                           for s in c.fn.insts())
                if owner in freed or over:
                    rep.ok("component-release", c.loc, fn.name)
                else:
                    rep.bad("component-release", c.loc, "%s:%s%d:behind" % (fn.name, path[-2][1], path[-2][2]),
                            "%s releases a component of a live object (%s)" % (fn.name, pts.loc_str((root, path))))


def destructor(M, u, rep):
    """on every path with a non-NULL object: each component released once (or known to be NULL), then the object"""
    name = u.fn.name
    st, fields = DESTROY[name]
    st = st.replace("struct.", "")
    A = ("arg", 0)
    S = sym.Sym(u, M)
    T = nest.Tree(u, u.fn, S, lambda c: None)

    def null(p, v):
        for f in p.facts:
            if f[0] == "eq0":
                for w in f[1][1:] if f[1][0] == "pdiff" else (f[1],):
                    if v == w or w[0] == "ldv" and v == ("ld", w[1]):
                        return True
        return False
    todo = {k: None for k in list(fields) + ["self"]}
    for p in T.top():
        if null(p, A):
            continue
        if p.loops():
            raise Broken("%s: a loop in a destructor" % name)
        ev = p.calls(*FREES)
        for f, nm in fields.items():
            a = ("fld", A, st, f)
            hit = [k for k, e in enumerate(ev) if e[2][0] in (("ld", a),) or e[2][0][0] == "ldv" and e[2][0][1] == a]
            if len(hit) > 1:
                todo[f] = "%s releases component %s twice on a path" % (name, nm)
            elif not hit and not null(p, ("ld", a)):
                todo[f] = "%s does not release component %s on every path" % (name, nm)
        own = [k for k, e in enumerate(ev) if e[2][0] == A]
        if not own:
            todo["self"] = "%s does not release the object itself on every path" % name
        elif own != [len(ev) - 1]:
            todo["self"] = "%s does not release the object itself once, last" % name
    for f, msg in todo.items():
        nm = fields.get(f, "self")
        if msg:
            rep.bad("destructor-complete", name, "%s:%s" % (name, nm), msg)
        else:
            rep.ok("destructor-complete", name, nm)


def check(b, rep):
    rep.expl = ("Ownership typestate by property simulation: for each allocation site of each operation (helpers "
                "inlined; parallel bodies separately) an arbitrary block from that site is followed along all feasible "
                "paths through states live/released/handed-over.")
    rep.rule("leak", "live block at a return that does not return it")
    rep.rule("double-release", "release of a released block")
    rep.rule("use-after-release", "access to a released block")
    rep.rule("wrong-release", "object released with an operation that does not release its components")
    rep.rule("block-lifecycle", "one tracked allocation site, all feasible paths")
    rep.rule("component-release", "components are released with (and only with) their owner")
    rep.rule("destructor-complete", "a destructor releases each component and the object itself on the non-NULL path")
    M = b.lib()
    us = pts.units(M)
    n = 0
    for u in us:
        if u.fn.name not in API:
            continue
        for fn in u.fns:
            for i in fn.insts():
                if i.op != "call":
                    continue
                k = producer(i.callee_name() or "")
                if not k or i.type != "ptr":
                    continue
                if u.fn.name in ("spasm_malloc", "spasm_calloc", "spasm_realloc"):
                    continue
                n += 1
                cl = Own(rep, u, fn, i, k)
                e = esp.Esp(u, fn, cl).run()
                if e.overflow:
                    raise Broken("state explosion in %s for %s" % (fn.name, i.loc))
                rep.ok("block-lifecycle", i.loc, "%s: %s (%d states)" % (fn.name, i.callee_name(), len(e.at)))
                for (key, loc), msg in cl.msgs.items():
                    rep.bad(key, loc, "%s:%s:%s" % (u.fn.name, i.callee_name(), i.name), msg)
    for u in us:
        if u.fn.name in API:
            component_rules(u, rep)
    for u in us:
        if u.fn.name in DESTROY:
            destructor(M, u, rep)
    rep.need("block-lifecycle", 60)
    rep.need("destructor-complete", 16)


if __name__ == "__main__":
    sys.exit(run("P02", check))
