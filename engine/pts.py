"""Where can a pointer point?  Access-path based, field sensitive, index insensitive, flow insensitive.

Location = (root, path).  root:
   ('arg', i)            what argument i of the public function points to
   ('alloca', inst)      a local
   ('call', inst)        fresh object returned by a call
   ('glob', name)
   ('unk',)
path: tuple of steps, ('f', struct, k) selecting a field, '*' following a stored pointer.
A unit is a public function together with its outlined parallel bodies.
"""
MAXP = 7
UNK = (("unk",), ())

FORK = {"__kmpc_fork_call", "__kmpc_fork_call_if", "__kmpc_fork_teams", "__kmpc_omp_task_alloc"}


class Unit:
    def __init__(self, fn):
        self.fn = fn
        self.fns = [fn]
        self.forks = {}           # outlined fn -> list of fork call insts
        self.bind = {}            # (outlined arg Value) -> list of actual values
        i = 0
        while i < len(self.fns):
            f = self.fns[i]
            for c in f.calls():
                if c.callee_name() in ("__kmpc_fork_call", "__kmpc_fork_call_if"):
                    g = c.ops[2]
                    if g.kind != "func":
                        continue
                    base = 3 if c.callee_name() == "__kmpc_fork_call" else 4
                    if g not in self.fns:
                        self.fns.append(g)
                    self.forks.setdefault(g, []).append(c)
                    for k, a in enumerate(c.ops[base:]):
                        if 2 + k < len(g.args):
                            self.bind.setdefault(g.args[2 + k], []).append(a)
            i += 1
        self.loc = {}
        self.store = {}
        self.solved = False

    def insts(self):
        for f in self.fns:
            for i in f.insts():
                yield i

    # ------------------------------------------------------------------
    def solve(self):
        if self.solved:
            return self
        self.solved = True
        loc = self.loc
        store = self.store
        for a in self.fn.args:
            if a.type == "ptr":
                loc[a] = {(("arg", a.idx), ())}
        changed = True
        rounds = 0
        ptr_insts = []
        for i in self.insts():
            ptr_insts.append(i)
        while changed and rounds < 40:
            changed = False
            rounds += 1
            for f, calls in self.bind.items():
                if f.type == "ptr":
                    s = loc.setdefault(f, set())
                    n = len(s)
                    for a in calls:
                        s |= self.of(a)
                    changed |= len(s) != n
            for i in ptr_insts:
                if i.op == "store":
                    v = i.ops[0]
                    if v.type != "ptr":
                        continue
                    vs = self.of(v)
                    for l in self.of(i.ops[1]):
                        s = store.setdefault(l, set())
                        n = len(s)
                        s |= vs
                        changed |= len(s) != n
                    continue
                if i.type != "ptr":
                    continue
                new = None
                if i.op == "alloca":
                    new = {(("alloca", i), ())}
                elif i.op == "gep":
                    new = {self.gep(l, i.srctype, i.ops) for l in self.of(i.ops[0])}
                elif i.op == "load":
                    new = set()
                    for l in self.of(i.ops[0]):
                        new |= self.content(l)
                elif i.op in ("phi", "select", "bitcast", "freeze"):
                    new = set()
                    for o in (i.ops[1:] if i.op == "select" else i.ops):
                        new |= self.of(o)
                elif i.op == "call":
                    n = i.callee_name()
                    if n and n.startswith("llvm.ptr"):
                        new = self.of(i.ops[0])
                    else:
                        new = {(("call", i), ())}
                else:
                    new = {UNK}
                s = loc.setdefault(i, set())
                n = len(s)
                s |= new
                changed |= len(s) != n
        return self

    def content(self, l):
        r = set(self.store.get(l, ()))
        root, path = l
        if root[0] != "alloca" and root[0] != "unk":
            if len(path) < MAXP:
                r.add((root, path + ("*",)))
            else:
                r.add(UNK)
        if root[0] == "unk":
            r.add(UNK)
        return r

    @staticmethod
    def gep(l, srctype, ops):
        root, path = l
        if root[0] == "unk":
            return UNK
        if srctype.startswith("%struct") or srctype.startswith("%union"):
            ty = srctype
            for k in ops[2:]:
                if ty and (ty.startswith("%struct") or ty.startswith("%union")):
                    path = path + (("f", ty[1:], k.val),)
                    ty = None    # nested aggregate types are reached through a further gep
        if len(path) > MAXP + 2:
            return UNK
        return (root, path)

    def of(self, v):
        """set of locations pointer value v may point to"""
        if v.kind in ("inst", "arg"):
            return self.loc.get(v, set())
        if v.kind == "global":
            return {(("glob", v.name), ())}
        if v.kind == "cexpr":
            if v.ops and v.op in ("gep", "bitcast"):
                return self.of(v.ops[0])
            return {UNK}
        return set()

    def resolve(self, v, depth=0):
        """See through a load of a local that is stored exactly once in the unit (set-once captured variable)."""
        while depth < 20 and v.kind == "inst" and v.op == "load":
            ls = self.of(v.ops[0])
            if len(ls) != 1:
                return v
            (root, path), = ls
            if root[0] != "alloca" or path:
                return v
            st = self.stores_to(root[1])
            if st is None or len(st) != 1:
                return v
            v = st[0].ops[0]
            depth += 1
        if v.kind == "arg" and v in self.bind and len(self.bind[v]) == 1 and depth < 20:
            return self.resolve(self.bind[v][0], depth + 1)
        return v

    def stores_to(self, alloca):
        """store instructions into a scalar local (None if its address goes elsewhere than loads/stores/forks)"""
        c = getattr(self, "_st", None)
        if c is None:
            c = self._st = {}
            bad = self._bad = set()
            for i in self.insts():
                if i.op == "store":
                    for root, path in self.of(i.ops[1]):
                        if root[0] == "alloca":
                            c.setdefault(root[1], []).append(i)
                    if i.ops[0].type == "ptr":
                        for root, path in self.of(i.ops[0]):
                            if root[0] == "alloca":
                                bad.add(root[1])
                elif i.op in ("atomicrmw", "cmpxchg"):
                    for root, path in self.of(i.ops[0]):
                        if root[0] == "alloca":
                            bad.add(root[1])
                elif i.op == "call" and i.callee_name() not in FORK:
                    n = i.callee_name() or ""
                    if n.startswith("__kmpc_reduce") or n.startswith("__kmpc_for_static") or \
                            n.startswith("__kmpc_dispatch"):
                        pass
                    for o in i.ops:
                        if o.type == "ptr":
                            for root, path in self.of(o):
                                if root[0] == "alloca" and not path:
                                    bad.add(root[1])
        if alloca in self._bad:
            return None
        return c.get(alloca, [])


def units(module, names=None):
    out = []
    for f in module.defined():
        if f.internal:
            continue
        if names is not None and f.name not in names:
            continue
        out.append(Unit(f).solve())
    return out


def loc_str(l):
    root, path = l
    if root[0] == "arg":
        s = "arg%d" % root[1]
    elif root[0] in ("alloca", "call"):
        s = "%s(%r@%s)" % (root[0], root[1], root[1].loc)
    else:
        s = ":".join(str(x) for x in root)
    for p in path:
        if p == "*":
            s += "->*"
        else:
            s += ".%s#%d" % (p[1].replace("struct.", ""), p[2])
    return s
