"""P06: a concurrent pivot is committed only against the state it was tested on."""
from common import *
import pts
import cfg
import par
import trips
import p04
import p05
from sym import Sym, C, add, el_split, walk, to_poly
from ranges import loop_ranges, edge_facts
from fills import CTR

strip = trips.strip
fname = p04.fname


def backward(v):
    """values v is computed from (phis, arithmetic, conversions), not through memory"""
    out, todo = [], [v]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen or not hasattr(x, "kind"):
            continue
        seen.add(x)
        out.append(x)
        if x.kind == "inst" and x.op not in ("load", "call", "atomicrmw", "cmpxchg"):
            todo += list(x.ops)
    return out


class Search:
    def __init__(self, rep, S, u, f, w):
        self.rep, self.S, self.u, self.f, self.w, self.L = rep, S, u, f, w, w.loop
        self.iv = w.iv
        self.crit = [c for c in par.criticals(f) if c[0].block in self.L.blocks]
        self.insts = [i for b in f.blocks if b in self.L.blocks for i in b.insts]
        self.shared = []            # (store, base, index, value) : stores to shared tables of integers
        for i in self.insts:
            if i.op == "store" and i.ops[0].type == "i32" and not self.mine(i.ops[1]):
                b, x = el_split(S.t(i.ops[1]))
                if i.ops[1].kind == "inst" and i.ops[1].op == "gep" and "fld" not in {y[0] for y in walk(b)}:
                    self.shared.append((i, b, x, S.t(i.ops[0])))
        self.rows = [s for s in self.shared if s[2] == self.iv and s[3][0] != "c"]
        self.cols = [s for s in self.shared if s[3] == self.iv]

    def mine(self, p):
        ls = self.u.of(p)
        return bool(ls) and all(p05.private(self.f, l) for l in ls)

    def where(self, i):
        return "%s %s" % (fname(self.f), i.loc)

    def sect(self, i):
        for c in self.crit:
            if i in c[3]:
                return c
        return None

    def bad(self, rule, i, key, msg):
        self.rep.bad(rule, self.where(i), key, msg)

    # ------------------------------------------------------------------ the commit
    def run(self):
        if not (self.rows or self.cols) or not self.crit:
            return False
        anchor = (self.cols or self.rows)[0][0]
        self.find_counter()
        if self.K is None:
            self.bad("commit", anchor, "counter", "a pivot is published without looking at the number of pivots committed so far")
            return True
        ok = True
        self.edge = {}
        for s in self.shared:
            i = s[0]
            c = self.sect(i)
            if c is None:
                self.bad("commit", i, "outside", "the tables of pivots are changed outside the mutual-exclusion section")
                ok = False
                continue
            e = self.guard(i, c)
            if e is None:
                self.bad("commit", i, "guard", "a pivot is published without checking that no pivot was committed since the "
                         "snapshot")
                ok = False
                continue
            self.rep.ok("commit", self.where(i))
            self.edge[e[0]] = e
        if not ok or not self.edge:
            return True
        for key in self.edge:
            blk, tgt = key[0], key[1]
            self.one(*self.edge[key][1:])
        return True

    def find_counter(self):
        """address of the shared scalar read in the section and advanced in the loop"""
        S = self.S
        rd = {S.t(i.ops[0]) for i in self.insts if i.op in ("load", "atomicrmw") and i.type == "i32" and self.sect(i)
              and not self.mine(i.ops[0])}
        wr = {S.t(i.ops[1]) for i in self.insts if i.op == "store" and i.ops[0].type == "i32" and not self.mine(i.ops[1])} | \
             {S.t(i.ops[0]) for i in self.insts if i.op == "atomicrmw"}
        ks = sorted((a for a in rd & wr if a[0] != "el"), key=str)
        self.K = ks[0] if len(ks) == 1 else None
        if len(ks) > 1:
            # the one that positions the journal or is compared
            for a in ks:
                if any(self.compared(i, a) for i in self.insts if i.op == "icmp"):
                    self.K = a

    def is_k(self, v):
        v = strip(v)
        return v.kind == "inst" and v.op == "load" and self.S.t(v.ops[0]) == self.K

    def compared(self, i, a):
        return any(strip(o).kind == "inst" and strip(o).op == "load" and self.sect(strip(o)) and self.S.t(strip(o).ops[0]) == a
                   for o in i.ops)

    def guard(self, i, c):
        """edge on which the counter, read in the section, was seen equal to a value: (key, block, target, snapshot, section)"""
        S = self.S
        for v, truth, term in cfg.dominating_conditions(i.block):
            if not hasattr(v, "kind") or term not in c[3]:
                if not (hasattr(v, "kind") and term.block is c[0].block):
                    continue
            tgt = term.targets[0 if truth else 1]
            w, tr = v, truth
            while w.kind == "inst" and (w.op == "freeze" or w.op == "xor" and w.ops[1].kind == "int"):
                if w.op == "xor":
                    tr = tr != bool(w.ops[1].val & 1)
                w = w.ops[0]
            if w.kind == "inst" and w.op == "icmp" and w.pred == ("eq" if tr else "ne"):
                for k in (0, 1):
                    if self.is_k(w.ops[k]) and strip(w.ops[k]) in c[3]:
                        return (term.block, tgt), term.block, tgt, strip(w.ops[1 - k]), c
            # a truth value computed first
            vals = backward(v)
            ks = [x for x in vals if self.is_k(x) and x in c[3]]
            fs = edge_facts(S, term.block, 0 if truth else 1)
            for x in vals:
                if ks and x is not ks[0] and x.type == "i32" and x.kind in ("inst", "int") and not self.is_k(x):
                    d = add(S.t(ks[0]), S.t(x), -1)
                    if ("eq0", d) in fs or ("eq0", add(C(0), d, -1)) in fs:
                        return (term.block, tgt), term.block, tgt, x, c
        return None

    # ------------------------------------------------------------------ one transaction
    def one(self, blk, tgt, snap, c):
        self.c, self.snap = c, snap
        self.table = {s[1] for s in self.cols}
        self.rowtab = {s[1] for s in self.rows}
        self.publish(blk, tgt, c)
        neq = [t for t in blk.term.targets if t is not tgt][0]
        self.replay(blk, neq, c)
        self.snapshot()
        self.search()

    def publish(self, blk, tgt, c):
        S, rep = self.S, self.rep
        ends = {e.block for e in c[1]}
        ps = trips.paths(S, tgt, {self.L.header, c[0].block}, self.L.blocks)
        if not ps:
            self.bad("publish", c[0], "paths", "the commit cannot be followed to the end of the iteration")
            return
        self.journal = set()
        for P in ps:
            done = self.follow_commit(P, c)
            if done:
                i, key, msg = done
                self.bad("publish", i or c[0], key, msg)
            else:
                rep.ok("publish", self.where(c[0]))
            if P.end is not self.L.header:
                self.bad("publish", c[0], "again", "after a commit the same row is tested again, or the search goes on")

    def follow_commit(self, P, c):
        """None if everything is published on the path"""
        S = self.S
        shared = {s[0]: s for s in self.shared}
        row = col = jour = None
        adv = None
        undo = False
        n = 0
        inside = True
        seq = []
        for i in P.insts():
            n += 1
            if i.op == "call" and (i.callee_name() or "") == "__kmpc_end_critical":
                inside = False
            if i in shared:
                if not inside:
                    return i, "outside", "a table of pivots is changed after the section"
                seq.append((n, i))
            if (i.op == "atomicrmw" and S.t(i.ops[0]) == self.K) or (i.op == "store" and S.t(i.ops[1]) == self.K):
                if not inside:
                    return i, "late", "the number of committed pivots is advanced after the section"
                if adv is not None:
                    return i, "twice", "the number of committed pivots is advanced twice"
                adv = (n, i)
        for n, i in seq:
            _, b, x, v = shared[i]
            if x == self.iv and b in self.rowtab:
                row = (n, i, S.t(P.resolve(i.ops[0])))
            elif v == self.iv:
                col = (n, i, x)
        x = row[2] if row else col[2] if col else None
        for n, i in seq:
            _, b, ix, v = shared[i]
            if (row and i is row[1]) or (col and i is col[1]):
                continue
            if v[0] == "c":
                undo = True
                continue
            jour = (n, i)
        if col is None or row is None:
            return None if False else ((row or col or (0, None))[1], "table", "a committed pivot is not recorded in both the row "
                                       "table and the column table")
        if S.t(row[1].ops[0]) != col[2]:
            return row[1], "pair", "the row table and the column table do not record the same pivot"
        if jour is None:
            return row[1], "journal", "a committed pivot is not entered in the journal"
        _, b, ix, v = shared[jour[1]]
        if v != col[2]:
            return jour[1], "column", "the journal does not record the column of the committed pivot"
        self.journal.add(b)
        if adv is None:
            return row[1], "count", "the number of committed pivots is not advanced with the publication"
        an, ai = adv
        if an < row[0] or an < col[0]:
            return ai, "order", "the number of committed pivots is advanced before the tables are up to date: another thread may " \
                "take a snapshot that already counts this pivot and still read the old tables"
        # the amount
        if ai.op == "atomicrmw":
            a = P.resolve(ai.ops[1])
            k = a.val if a.kind == "int" and ai.rmw == "add" else None
        else:
            d = P.lin(ai.ops[0])
            k = d[1] if self.is_k(d[0]) or d[0] is self.snap else None
        if k not in ((0, 1) if undo else (1,)):
            return ai, "amount", "the number of committed pivots does not grow by one with each pivot"
        # position in the journal
        r, off = P.lin(jour[1].ops[1].ops[-1])
        pos = {}
        for n, i in enumerate(P.insts()):
            pos[i] = n + 1
        if r is strip(self.snap) or r is P.resolve(self.snap):
            at = off
        elif r.kind == "inst" and r is ai and ai.op == "atomicrmw":
            at = off
        elif self.is_k(r) and (r in c[3]):
            at = off if pos.get(r, 0) < an else off + k
        else:
            return jour[1], "slot", "the journal entry is not placed at the number of pivots committed before"
        if at != 0:
            return jour[1], "slot", "the journal entry is not placed at the number of pivots committed before"
        return None

    # ------------------------------------------------------------------ after a conflict
    def replay(self, blk, neq, c):
        S, rep = self.S, self.rep
        self.rl = None
        loops = [l for l in cfg.loops(self.f) if l.blocks < self.L.blocks and c[0].block not in l.blocks]
        found = []
        for l in loops:
            for i in (i for b in self.f.blocks if b in l.blocks for i in b.insts):
                if i.op == "load" and i.type == "i32" and cfg.innermost_loop(i.block) is l:
                    b, x = el_split(S.t(i.ops[0]))
                    if b in self.journal:
                        found.append((l, i, x))
        if not found:
            if self.journal:
                self.bad("replay", c[0], "none", "the pivots committed in between are never looked up in the journal")
            return
        l, jl, x = found[0]
        w = self.where(jl)
        self.rl = l
        # range of journal positions
        rs = [r for r in loop_ranges(S, l) if r.term == x]
        if not rs:
            r0 = [r for r in loop_ranges(S, l)]
            self.bad("replay", jl, "range", "the journal entries examined are not consecutive ones, from the snapshot on")
            return
        good = None
        for r in rs:
            init = [strip(v) for v, p in r.phi.incoming if p not in l.blocks]
            lo = bool(init) and all(v is strip(self.snap) or S.t(v) == S.t(self.snap) for v in init) and r.step == 1
            tg = None
            for v in backward(r.exit_block.term.ops[0]):
                if v.type in ("i32", "i64") and v.kind == "inst" and v is not r.phi and S.t(v) == r.hi and self.targets(v, c):
                    tg = v
            if lo and tg is not None:
                good = r, tg
            else:
                why = (lo, tg)
        if good is None:
            lo, tg = why
            self.bad("replay", jl, "range", "not every pivot committed %s is examined" % (
                "since the snapshot" if not lo else "before the conflict was noticed"))
            return
        r, self.target = good
        self.ctr = r.phi
        if r.others:
            self.bad("replay", r.others[0][0].term, "exit", "the examination of the pivots committed in between may stop early")
        else:
            rep.ok("replay", w)
        self.each(l, jl, c)
        # a conflict always leads there
        ps = trips.paths(S, neq, {l.header, c[0].block, self.L.header}, self.L.blocks)
        feas = [P for P in ps or () if self.possible(P, blk, neq)]
        if not feas or any(P.end is not l.header for P in feas):
            bad = [P for P in feas if P.end is not l.header]
            self.bad("replay", (bad[0].blocks[-1].term if bad else c[0]), "skip", "after a conflict, the row is given up or committed "
                     "without examining the pivots found in between")
        else:
            rep.ok("replay", w)

    def possible(self, P, blk, neq):
        """drop paths that take the target for negative (it was just read)"""
        for x in P.facts:
            if x[0] == "lt0" and x[1] == ("ld", self.K):
                return False
        # decide comparisons of the target along the path
        for k, b in enumerate(P.blocks[:-1]):
            t = b.term
            nxt = P.blocks[k + 1] if k + 1 < len(P.blocks) else P.end
            if t.op != "br" or len(t.targets) != 2:
                continue
            r = self.sign(P, t.ops[0])
            if r is not None and t.targets[0 if r else 1] is not nxt:
                return False
        t = P.blocks[-1].term
        if t.op == "br" and len(t.targets) == 2 and P.end is not None:
            r = self.sign(P, t.ops[0])
            if r is not None and t.targets[0 if r else 1] is not P.end:
                return False
        return True

    def sign(self, P, cond):
        c = P.resolve(cond)
        flip = False
        while c.kind == "inst" and c.op == "xor" and c.ops[1].kind == "int":
            flip = flip != bool(c.ops[1].val & 1)
            c = P.resolve(c.ops[0])
        if c.kind != "inst" or c.op != "icmp" or c.ops[1].kind != "int":
            return None
        a = P.resolve(c.ops[0])
        if not self.is_k(a):
            return None
        k = c.ops[1].val
        r = {("slt", 0): False, ("sge", 0): True, ("sgt", -1): True, ("sle", -1): False, ("eq", -1): False,
             ("ne", -1): True}.get((c.pred, k))
        return None if r is None else r != flip

    def targets(self, v, c):
        """v is the counter as read in the section (or a negative mark)"""
        out, seen, todo = [], set(), [v]
        while todo:
            x = strip(todo.pop())
            if x in seen:
                continue
            seen.add(x)
            if x.kind == "inst" and x.op == "phi":
                todo += list(x.ops)
            elif x.kind == "inst" and x.op == "select":
                todo += list(x.ops[1:])
            elif x.kind == "undef":
                pass
            elif x.kind == "int":
                if x.val >= 0:
                    return []
            elif self.is_k(x) and x in c[3]:
                out.append(x)
            elif self.is_k(x) and cfg.inst_dominates(c[0], x):
                out.append(x)       # read after the section: even more pivots are counted
            else:
                return []
        return out

    def each(self, l, jl, c):
        S, rep = self.S, self.rep
        jj = S.t(jl)
        ts = trips.trips(S, l)
        if not ts:
            self.bad("replay", jl, "trips", "the examination of one pivot cannot be followed")
            return
        for P in ts:
            mark = self.mark_of(jj)
            def no(y):
                return any(trips.contradicts(x, y) for x in P.facts)
            zero = any(("eq0", a) in P.facts or no(("eq0", add(a, C(-1)))) and no(("eq0", add(a, C(1)))) for a in mark)
            if zero:
                rep.ok("replay", self.where(jl))
                continue
            if self.enqueues(P, jj):
                rep.ok("replay", self.where(jl))
                continue
            en = self.enumerated(P, l, jj)
            if en is None:
                self.bad("replay", jl, "ignored", "a pivot committed in between whose column was met by the search is not taken into "
                         "account")
            elif not any(trips.contradicts(x, ("eq0", add(a, C(-1)))) for x in P.facts for a in mark):
                self.bad("replay", jl, "survivor", "a candidate of the row that has just become a pivot stays a candidate")
            else:
                rep.ok("replay", self.where(jl))
                self.rowloop(en)

    def mark_of(self, j):
        """terms of the private marks of column j"""
        out = set()
        for i in self.insts:
            if i.op == "load" and i.type in ("i8", "i32", "i16") and self.mine(i.ops[0]):
                b, x = el_split(self.S.t(i.ops[0]))
                if x == j:
                    out.add(self.S.t(i))
        return out

    def enqueues(self, P, j):
        """the path puts column j in a private list and marks it as reached"""
        q = m = False
        for i in P.insts():
            if i.op == "store" and self.mine(i.ops[1]):
                b, x = el_split(self.S.t(i.ops[1]))
                if self.S.t(i.ops[0]) == j:
                    q = True
                v = P.resolve(i.ops[0])
                if x == j and v.kind == "int" and v.val < 0:
                    m = True
        return q and m

    def enumerated(self, P, l, j):
        """the path runs through the entries of the row whose pivot is on column j: that loop"""
        S = self.S
        want = {("ld", t) for t in self.elem(j)}
        for m in cfg.loops(self.f):
            if m.header in P.set and m.blocks < l.blocks:
                for r in loop_ranges(S, m):
                    if r.step != 1:
                        continue
                    lo, hi = el_split(r.lo[1]) if r.lo[0] == "ld" else (None, None), None
                    if r.lo[0] != "ld" or r.hi[0] != "ld":
                        continue
                    b1, i1 = el_split(r.lo[1])
                    b2, i2 = el_split(r.hi[1])
                    if b1 == b2 and i1 in want and i2 == add(i1, C(1)):
                        return m, r
        return None

    def elem(self, j):
        """addresses of entry j of the column table"""
        out = set()
        for i in self.insts:
            if i.op == "load":
                b, x = el_split(self.S.t(i.ops[0]))
                if b in self.table and x == j:
                    out.add(self.S.t(i.ops[0]))
        return out

    # ------------------------------------------------------------------ the snapshot
    def snapshot(self):
        S, rep = self.S, self.rep
        srcs, seen, todo = [], set(), [self.snap]
        while todo:
            v = strip(todo.pop())
            if v in seen:
                continue
            seen.add(v)
            if v.kind == "inst" and v.op == "phi":
                if self.rl is not None and v is getattr(self, "ctr", None):
                    todo += [x for x, p in v.incoming if p not in self.rl.blocks]
                else:
                    todo += list(v.ops)
            elif v.kind == "inst" and v.op == "select":
                todo += list(v.ops[1:])
            elif v.kind == "undef" or v.kind == "int" and v.val < 0:
                continue
            elif self.is_k(v):
                srcs.append(v)
            else:
                self.bad("snapshot", v if v.kind == "inst" else self.c[0], "source", "the state a pivot is tested on is not the "
                         "number of committed pivots read before the test")
                return
        base = []
        for v in srcs:
            if v in self.c[3] or cfg.inst_dominates(self.c[0], v):
                # taken when the conflict was noticed: the pivots up to there are examined afterwards
                if self.rl is None:
                    self.bad("snapshot", v, "target", "the snapshot is moved forward without examining the pivots in between")
                elif v is not strip(getattr(self, "target", v)) and v not in self.targets(self.target, self.c):
                    self.bad("snapshot", v, "target", "the snapshot is moved beyond the pivots that were examined")
                elif cfg.path_inst(v, self.c[0], lambda x: x.block is self.rl.header or x is self.L.header.insts[0]):
                    self.bad("snapshot", v, "target", "the snapshot is moved forward without examining the pivots in between")
                continue
            if v.block not in self.L.blocks:
                self.bad("snapshot", v, "outer", "the snapshot is older than the iteration")
                continue
            base.append(v)
            rep.ok("snapshot", self.where(v))
        if not base:
            self.bad("snapshot", self.c[0], "none", "no snapshot is taken before the row is tested")
            return
        # what the test reads comes later than the snapshot
        for i in self.insts:
            if i.op != "load" or i.type != "i32" or self.sect(i):
                continue
            b, x = el_split(S.t(i.ops[0]))
            if b not in self.table | self.rowtab or x == self.iv and b in self.rowtab:
                continue
            if not any(cfg.inst_dominates(v, i) for v in base):
                self.bad("snapshot", i, "early", "the table of pivots is read before the snapshot is taken: a pivot committed in "
                         "between goes unnoticed")
            elif len(base) > 1 and not all(cfg.inst_dominates(v, i) or not cfg.path_inst(i, v, lambda x: x is self.L.header.insts[0])
                                           for v in base):
                self.bad("snapshot", i, "later", "the snapshot is taken again after the table of pivots was read")
            else:
                rep.ok("snapshot", self.where(i))

    # ------------------------------------------------------------------ the search
    def search(self):
        S, rep, c = self.S, self.rep, self.c
        # the loop that looks up the column table for columns taken from a private list
        cand = []
        for l in cfg.loops(self.f):
            if not l.blocks < self.L.blocks or c[0].block in l.blocks:
                continue
            if self.rl is not None and (l.blocks <= self.rl.blocks):
                continue
            for b in sorted(l.blocks, key=lambda b: b.name):
                for i in b.insts:
                    if i.op != "load" or i.type != "i32" or cfg.innermost_loop(b) is not l:
                        continue
                    t, x = el_split(S.t(i.ops[0]))
                    if t in self.table and x[0] == "ld" and any(
                            y.op == "load" and S.t(y) == x and self.mine(y.ops[0]) for y in self.insts):
                        cand.append((l, i, x))
        if not cand:
            self.bad("search", c[0], "none", "the rows reached through columns that already hold a pivot are not explored")
            return
        l, look, jj = cand[0]
        self.bfs = l
        # the section is only entered after the search ran to its end
        starts = [self.L.header.insts[0]]
        for s, what in [(self.L.header.insts[-1], "start")] + ([(self.rl.header.insts[-1], "replay")] if self.rl else []):
            if cfg.path_inst(s, c[0], lambda x: x.block is l.header or x is self.L.header.insts[0]):
                self.bad("search", c[0], "skipped:" + what, "a pivot may be committed without running the search%s" % (
                    " again after new pivots were examined" if what == "replay" else ""))
            else:
                rep.ok("search", self.where(c[0]))
        # exits
        b, qi = el_split(jj[1])
        head = [ph for ph in l.header.phis if ("phi", ph) in walk(qi) or S.t(ph) in walk(qi)]
        surv = set()
        for P in trips.paths(S, l.header, {l.header}, l.blocks) or ():
            if P.end is l.header or P.end is None or P.end in l.blocks:
                continue
            at = P.blocks[-1].term
            if not self.exit_ok(P.facts, head, surv, l):
                self.bad("search", at, "exit", "the search may stop while columns remain to be explored and candidates remain")
            else:
                rep.ok("search", self.where(at))
        self.surv = surv
        # one step
        for P in trips.trips(S, l) or ():
            if head and not any(P.out(h) is not None and P.delta(P.out(h), h) == 1 for h in head):
                self.bad("search", look, "step", "the search skips columns of its list")
                continue
            col = {("ld", t) for t in self.elem(jj)}
            if any(x == ("lt0", a) or x == ("eq0", add(a, C(1))) or x == ("eq0", add(C(-1), a, -1)) for x in P.facts for a in col):
                rep.ok("search", self.where(look))
                continue
            en = self.enumerated(P, l, jj)
            if en is None:
                self.bad("search", look, "row", "the entries of the row reached through a pivotal column are not all explored")
                continue
            rep.ok("search", self.where(look))
            self.rowloop(en)
        self.scatter()
        self.choose()

    def exit_ok(self, fs, head, surv, l):
        for x in fs:
            alt = x[1:] if x[0] == "or" else x[1][1:] if x[0] == "not" and x[1][0] == "and" else (x,)
            if x[0] == "not" and x[1][0] == "and":
                from sym import neg_cond
                alt = tuple(neg_cond(y) for y in alt)
            if all(self.alt_ok(y, head, surv, l) for y in alt):
                return True
        return False

    def alt_ok(self, x, head, surv, l):
        if x[0] not in ("lt0", "eq0"):
            return False
        d, k = to_poly(x[1])
        ph = [(m[0][1], v) for m, v in d.items() if len(m) == 1 and m[0][0] == "phi"]
        if len(ph) != len(d) or any(p.type != "i32" for p, v in ph):
            return False
        if len(ph) == 2:            # tail - head - 1 < 0, head == tail
            co = {p: v for p, v in ph}
            hs = [p for p in co if p in head]
            if len(hs) != 1 or sorted(co.values()) != [-1, 1]:
                return False
            return k == -1 and co[hs[0]] == -1 if x[0] == "lt0" else k == 0
        if len(ph) == 1 and ph[0][0] not in head:
            surv.add(ph[0][0])
            return (x[0] == "lt0" and ph[0][1] == 1 and k in (-1, 0)) or (x[0] == "eq0" and k == 0)
        return False

    def rowloop(self, en):
        """every entry of the row is put in the list unless it is there already, and the candidates are counted off"""
        m, r = en
        S, rep = self.S, self.rep
        if m in self.seen:
            return
        self.seen.add(m)
        at = m.header.term
        surv = set()
        for (xb, xt) in r.others:
            fs = edge_facts(S, xb, xb.succs.index(xt))
            if not any(self.alt_ok(x, [], surv, m) for x in fs):
                self.bad("search", xb.term, "early", "not every entry of a row reached by the search is explored")
        js = {S.t(i) for b in m.blocks for i in b.insts if i.op == "load" and i.type == "i32" and el_split(S.t(i.ops[0]))[1] == r.term
              and not self.mine(i.ops[0])}
        ps = trips.trips(S, m)
        if len(js) != 1 or not ps:
            self.bad("search", at, "entries", "the entries of a row reached by the search are not explored one by one")
            return
        j = next(iter(js))
        for P in ps:
            if any(x == ("lt0", a) or x == ("eq0", add(a, C(1))) for x in P.facts for a in self.mark_of(j)):
                continue
            if not self.enqueues(P, j):
                self.bad("search", at, "dropped", "an entry of a row reached by the search that was not met before is not put in the "
                         "list")
                return
            rep.ok("search", self.where(at))
        self.counts(m, ps, lambda P: self.enqueues(P, j), j)

    def counts(self, m, ps, enq, j, cand=lambda P: False):
        """the number of surviving candidates follows the marks"""
        S = self.S
        for ph in m.header.phis:
            if ph.type != "i32":
                continue
            if all(self.count_ok(P, ph, enq(P), cand(P), j) for P in ps):
                self.rep.ok("search", self.where(m.header.term))
                return ph
        # a list counter also passes this test only when nothing is removed: no phi fits
        self.bad("search", m.header.term, "count", "the number of surviving candidates does not follow the marks")
        return None

    def count_ok(self, P, ph, enq, cand, j):
        S = self.S
        v = P.out(ph)
        if v is None:
            return False
        marks = self.mark_of(j)
        late = self.overwritten(P, j)
        if late and any(l in backward(y) for l in late for y in [v] + [b.term.ops[0] for b in P.blocks if b.term.op == "br"
                                                                      and len(b.term.targets) == 2]):
            return False
        v = P.resolve(v)
        if cand:
            return P.delta(v, ph) == 1
        if not enq:
            return P.delta(v, ph) == 0
        k = P.delta(v, ph)
        if k is not None:
            one = any(x == ("eq0", add(a, C(-1))) or x == ("eq0", add(C(1), a, -1)) for x in P.facts for a in marks)
            not1 = any(trips.contradicts(x, ("eq0", add(a, C(-1)))) for x in P.facts for a in marks)
            return k == -1 and one or k == 0 and not1
        if v.kind == "inst" and v.op == "sub" and P.resolve(v.ops[0]) is ph and S.t(v.ops[1]) in marks:
            return True
        r = P.deltas(S, v, ph)
        if r:
            def fits(f, k):
                one = any(x == ("eq0", add(a, C(-1))) or x == ("eq0", add(C(1), a, -1)) for x in f for a in marks)
                return k == -1 and one or k == 0 and not one
            return all(fits(list(P.facts) + list(f), k) for f, k in r)
        return False

    def overwritten(self, P, j):
        """reads of the mark of column j that come after it was changed on the path"""
        out, changed = [], False
        for i in P.insts():
            if i.op == "store" and self.mine(i.ops[1]) and el_split(self.S.t(i.ops[1]))[1] == j and self.S.t(i.ops[0]) != j:
                changed = True
            if changed and i.op == "load" and self.S.t(i) in self.mark_of(j):
                out.append(i)
        return out

    def scatter(self):
        """the entries of the row itself: candidates are marked and counted, pivotal columns put in the list"""
        S, rep = self.S, self.rep
        for l in cfg.loops(self.f):
            if not l.blocks < self.L.blocks or self.c[0].block in l.blocks or l.blocks <= self.bfs.blocks:
                continue
            if self.rl is not None and l.blocks <= self.rl.blocks:
                continue
            for r in loop_ranges(S, l):
                if not self.own_row(r):
                    continue
                js = {S.t(i) for b in l.blocks for i in b.insts if i.op == "load" and i.type == "i32"
                      and el_split(S.t(i.ops[0]))[1] == r.term and not self.mine(i.ops[0])}
                if len(js) != 1:
                    continue
                j = next(iter(js))
                col = {("ld", t) for t in self.elem(j)}
                if not any(i.op == "load" and S.t(i) in col for b in l.blocks for i in b.insts):
                    continue
                ps = trips.trips(S, l)
                at = l.header.term
                if r.others:
                    self.bad("search", at, "scatter", "not every entry of the row is examined")
                for P in ps or ():
                    free = any(x == ("lt0", a) or x == ("eq0", add(a, C(1))) for x in P.facts for a in col)
                    taken = any(trips.contradicts(x, ("lt0", a)) for x in P.facts for a in col)
                    if self.enqueues(P, j) and not free:
                        rep.ok("search", self.where(at))
                    elif free and self.marked(P, j, 1):
                        rep.ok("search", self.where(at))
                    else:
                        self.bad("search", at, "scatter", "an entry of the row on a column that already holds a pivot is not explored, "
                                 "or a free one is not marked as a candidate")
                        return
                self.counts(l, ps, lambda P: self.enqueues(P, j), j, lambda P: self.marked(P, j, 1))
                return
        self.bad("search", self.c[0], "scatter", "the entries of the row are not confronted with the pivots found so far")

    def own_row(self, r):
        if r.step != 1 or r.lo[0] != "ld" or r.hi[0] != "ld":
            return False
        b1, i1 = el_split(r.lo[1])
        b2, i2 = el_split(r.hi[1])
        return b1 == b2 and i1 == self.iv and i2 == add(i1, C(1))

    def marked(self, P, j, k):
        return any(i.op == "store" and self.mine(i.ops[1]) and el_split(self.S.t(i.ops[1]))[1] == j and
                   P.resolve(i.ops[0]).kind == "int" and P.resolve(i.ops[0]).val == k for i in P.insts())

    def choose(self):
        """the column committed is one still marked as a candidate when the search is over"""
        S, rep = self.S, self.rep
        for l in cfg.loops(self.f):
            if not l.blocks < self.L.blocks or self.c[0].block in l.blocks or not any(
                    self.own_row(r) for r in loop_ranges(S, l)):
                continue
            if not any(cfg.path_inst(e[1].insts[0], self.c[0], lambda x: x is self.L.header.insts[0] or x.block is self.bfs.header)
                       for e in l.exits()):
                continue
            if not cfg.path_inst(self.bfs.header.insts[0], l.header.insts[0], lambda x: x is self.L.header.insts[0]):
                continue
            r = [r for r in loop_ranges(S, l) if self.own_row(r)][0]
            js = {S.t(i) for b in l.blocks for i in b.insts if i.op == "load" and i.type == "i32"
                  and el_split(S.t(i.ops[0]))[1] == r.term and not self.mine(i.ops[0])}
            for j in js:
                marks = self.mark_of(j)
                want = {("eq0", add(a, C(-1))) for a in marks} | {("eq0", add(C(1), a, -1)) for a in marks}
                for b in l.blocks:
                    for k in range(len(b.succs)):
                        if b.term.op == "br" and len(b.succs) == 2 and edge_facts(S, b, k) & want and (
                                b.succs[k] not in l.blocks or self.picks(b.succs[k], l, j)):
                            rep.ok("search", self.where(b.term))
                            return
        self.bad("search", self.c[0], "choice", "the column committed is not one that the search left marked as a candidate")

    def picks(self, b, l, j):
        """the column is remembered on that edge"""
        return any(self.S.t(v) == j for x in l.blocks for ph in x.phis for v, p in ph.incoming if p is b or cfg.dominates(b, p))

    seen = None


def check(b, rep):
    rep.rule("commit", "the tables of pivots change only inside the section, where the counter was seen equal to the snapshot")
    rep.rule("publish", "row table, column table, journal and counter are updated together, the counter after the tables, and the "
             "iteration ends there")
    rep.rule("snapshot", "the snapshot is the counter read before the tables are, or the counter at a conflict once the pivots in "
             "between are examined")
    rep.rule("replay", "after a conflict, every journal entry from the snapshot to the counter is examined: free columns are skipped, "
             "candidates are struck out, rows of columns already met are explored")
    rep.rule("search", "the search runs again before each attempt, explores every row it reaches and every entry of it, and counts "
             "the candidates off; the column committed is still a candidate")
    M = b.lib()
    n = 0
    for u in pts.units(M):
        if not u.fn.calls("__kmpc_fork_call"):
            continue
        S = Sym(u, M)
        for f in u.fns:
            if f is u.fn or f not in u.forks or not f.calls("__kmpc_critical"):
                continue
            ws = {}
            for w in par.ws_loops(S, f):
                d = to_poly(add(w.rng.hi, C(0)))
                if w.loop not in ws:
                    ws[w.loop] = w
            for w in ws.values():
                T = Search(rep, S, u, f, w)
                T.seen = set()
                n += T.run()
    if n == 0:
        rep.bad("commit", "spasm_pivots.c", "none", "no parallel search publishes its pivots inside a mutual-exclusion section")
    rep.extra["searches"] = n
    rep.expl = ("The optimistic protocol of the parallel pivot search is recovered from LLVM IR (tables written at the row of the "
                "iteration, counter read in the section, private marks and list) and each step of it is checked on all paths of "
                "one iteration.")
    rep.assumptions = ["a row does not hold the same column twice", "the counter and the tables are shared by the threads of one "
                       "region only", "atomic accesses and critical sections order memory as on the supported platforms"]


if __name__ == "__main__":
    sys.exit(run("P06", check))
