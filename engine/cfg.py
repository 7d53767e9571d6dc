"""CFG utilities: reverse post-order, dominators, post-dominators, loops, reachability."""


def rpo(fn):
    c = fn._cache.get("rpo")
    if c is None:
        seen, out = set(), []
        stack = [(fn.entry, iter(fn.entry.succs))]
        seen.add(fn.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(s.succs)))
                    break
            else:
                out.append(b)
                stack.pop()
        out.reverse()
        for k, b in enumerate(out):
            b.rpo = k
        c = fn._cache["rpo"] = out
    return c


def _idoms(nodes, preds, entry):
    num = {b: k for k, b in enumerate(nodes)}
    idom = {entry: entry}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            if b is entry:
                continue
            new = None
            for p in preds(b):
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x is not y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if new is not None and idom.get(b) is not new:
                idom[b] = new
                ch = True
    return idom


def idom(fn):
    c = fn._cache.get("idom")
    if c is None:
        c = fn._cache["idom"] = _idoms(rpo(fn), lambda b: b.preds, fn.entry)
    return c


def dominates(a, b):
    """block a dominates block b"""
    fn = a.fn
    d = idom(fn)
    while True:
        if a is b:
            return True
        n = d.get(b)
        if n is None or n is b:
            return False
        b = n


def inst_dominates(i, j):
    if i.block is j.block:
        return i.block.insts.index(i) < j.block.insts.index(j)
    return dominates(i.block, j.block)


class _Exit:
    preds = ()
    succs = ()
    name = "exit"


def ipdom(fn):
    c = fn._cache.get("ipdom")
    if c is None:
        ex = _Exit()
        # paths that end the process do not count
        exits = [b for b in fn.blocks if b.term.op == "ret"] or [b for b in fn.blocks if not b.succs]
        succ = {b: (b.succs if b.succs else [ex]) for b in fn.blocks}
        pred = {b: list(b.preds) for b in fn.blocks}
        pred[ex] = exits
        seen, out = {ex}, []
        stack = [(ex, iter(pred[ex]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(pred[s])))
                    break
            else:
                out.append(b)
                stack.pop()
        out.reverse()
        c = fn._cache["ipdom"] = (_idoms(out, lambda b: succ[b], ex), ex)
    return c


def postdominates(a, b):
    d, ex = ipdom(a.fn)
    while True:
        if a is b:
            return True
        n = d.get(b)
        if n is None or n is b:
            return False
        b = n


class Loop:
    def __init__(self, header):
        self.header = header
        self.blocks = {header}
        self.latches = []
        self.parent = None

    def exits(self):
        return [(b, s) for b in self.blocks for s in b.succs if s not in self.blocks]


def loops(fn):
    c = fn._cache.get("loops")
    if c is None:
        L = {}
        for b in rpo(fn):
            for s in b.succs:
                if dominates(s, b):
                    lp = L.setdefault(s, Loop(s))
                    lp.latches.append(b)
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in lp.blocks:
                            continue
                        lp.blocks.add(x)
                        st.extend(x.preds)
        ls = sorted(L.values(), key=lambda l: len(l.blocks))
        for i, l in enumerate(ls):
            for k in ls[i + 1:]:
                if l.header in k.blocks and k is not l:
                    l.parent = k
                    break
        c = fn._cache["loops"] = ls
    return c


def innermost_loop(b):
    for l in loops(b.fn):
        if b in l.blocks:
            return l
    return None


def reachable(frm, avoid=(), through=None):
    """blocks reachable from the successors of block `frm` without entering `avoid`"""
    seen = set()
    st = list(frm.succs)
    while st:
        b = st.pop()
        if b in seen or b in avoid:
            continue
        seen.add(b)
        st.extend(b.succs)
    return seen


def path_inst(a, b, avoid=lambda i: False):
    """Is there a path from just after instruction a to instruction b on which no instruction satisfies avoid?"""
    def scan(block, start):
        for i in block.insts[start:]:
            if i is b:
                return "hit"
            if avoid(i):
                return "stop"
        return "through"
    blk = a.block
    r = scan(blk, blk.insts.index(a) + 1)
    if r == "hit":
        return True
    if r == "stop":
        return False
    seen = set()
    st = list(blk.succs)
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        r = scan(x, 0)
        if r == "hit":
            return True
        if r == "through":
            st.extend(x.succs)
    return False


def control_deps(b):
    """(branch block, successor) pairs on which block b is control dependent"""
    fn = b.fn
    c = fn._cache.get("cd")
    if c is None:
        c = {x: set() for x in fn.blocks}
        d, ex = ipdom(fn)
        for x in fn.blocks:
            if len(x.succs) > 1:
                for s in x.succs:
                    y = s
                    stop = d.get(x)
                    while y is not None and y is not stop and y is not ex:
                        c[y].add((x, s))
                        n = d.get(y)
                        if n is y:
                            break
                        y = n
        fn._cache["cd"] = c
    return c[b]


def dominating_conditions(b):
    """[(cond value, truth)] that necessarily hold on entry to block b (edge dominance)."""
    out = []
    d = idom(b.fn)
    x = b
    while True:
        n = d.get(x)
        if n is None or n is x:
            break
        t = n.term
        if t.op == "br" and len(t.targets) == 2 and t.targets[0] is not t.targets[1]:
            for k in (0, 1):
                s = t.targets[k]
                if dominates(s, b) and all(p is n or dominates(s, p) for p in s.preds):
                    out.append((t.ops[0], k == 0, t))
        elif t.op == "switch":
            for v, s in t.cases:
                if dominates(s, b) and all(p is n or dominates(s, p) for p in s.preds) and \
                        sum(1 for _, z in t.cases if z is s) == 1 and t.targets[0] is not s:
                    out.append((("switch", t.ops[0], v), True, t))
        x = n
    return out
