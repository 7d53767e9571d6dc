"""P36: pictures show exactly the occupied cells of the matrix, in proportion."""
import re

from common import *
import cfg
import nest
import options
import pts
import sym
from sym import C, add, el, el_split, mul, neg_cond, subst, to_poly, walk
from p27 import Bad, arg, at, fld, implied, loc

NAME = "spasm_save_pnm"
A = arg(0)
AN, AM, AP, AJ = (fld(A, k) for k in (1, 2, 3, 4))
MODE = arg(4)
SPEC = re.compile(r"%[-+ #0-9.*]*(?:hh|h|ll|l|z|j)?([a-zA-Z%])")


def plain(t):
    """loads through different moments are the same; unsigned and signed division agree here"""
    def f(x):
        if x[0] == "ldv":
            return ("ld", plain(x[1]))
        if x[0] == "op" and x[1] == "udiv":
            return ("op", "sdiv") + tuple(plain(y) for y in x[2:])
        return None
    return subst(t, f)


def div(a, b):
    return ("op", "sdiv", a, b)


def value(t):
    """integer constant a term folds to; None"""
    if t[0] == "c":
        return t[1]
    if t[0] == "op" and len(t) == 4:
        a, b = value(t[2]), value(t[3])
        if t[1] == "and" and 0 in (a, b):
            return 0
        if a is None or b is None:
            return None
        return {"and": a & b, "or": a | b, "ashr": a >> b if b >= 0 else None, "lshr": a >> b if a >= 0 <= b else None,
                "shl": a << b if b >= 0 else None, "xor": a ^ b}.get(t[1])
    d, k = to_poly(t)
    if d:
        return 0 if t[0] == "op" else None
    return k


def real(t):
    """value of a floating-point term; None"""
    if t[0] == "f":
        return float(t[1])
    if t[0] == "fop":
        v = [real(x) for x in t[2:]]
        if None in v or len(v) != 2:
            return v[0] if len(v) == 1 and t[1] in ("fpext", "fptrunc", "sitofp") else None
        return {"fmul": v[0] * v[1], "fadd": v[0] + v[1], "fsub": v[0] - v[1]}.get(t[1])
    if t[0] == "c":
        return float(t[1])
    return None


def cfg_parent(L, loops):
    ups = [K for K in loops if L.blocks < K.blocks]
    return min(ups, key=lambda K: len(K.blocks)) if ups else None


class Picture:
    def __init__(self, rep, M, u, fn):
        self.rep, self.M, self.u, self.fn = rep, M, u, fn
        self.S = sym.Sym(u, M)
        self.T = nest.Tree(u, fn, self.S, lambda c: None, lambda t: None)
        self.T.limit = 50000
        self.loops = sorted(cfg.loops(fn), key=lambda L: (L.header.rpo, L.header.name))
        self.trips = {L: self.T.trips(L) for L in self.loops}
        self.short = []
        self.top = [p for p in self.T.top() if p.end is None]

    # ---- what a call writes into the picture -------------------------
    def emits(self, ev):
        if isinstance(ev, nest.Store) or ev[0] != "call":
            return False
        n, a = (ev[1] or "").replace("_unlocked", ""), ev[2]
        k = {"fprintf": 0, "__fprintf_chk": 0, "fputs": 1, "fputc": 1, "putc": 1, "_IO_putc": 1, "fwrite": 3}.get(n)
        return k is not None and k < len(a) and a[k] == arg(1)

    def resolve(self, t, mode, fs):
        """choices decided by the mode and the facts are taken"""
        def f(x):
            if x == MODE:
                return C(mode)
            if x[0] != "sel":
                return None
            c = plain(x[1])
            if c in fs or neg_cond(c) in fs:
                return self.resolve(x[2] if c in fs else x[3], mode, fs)
            c = subst(c, lambda y: C(mode) if y == MODE else None)
            v = self.truth(c)
            return None if v is None else self.resolve(x[2] if v else x[3], mode, fs)
        return subst(t, f)

    def truth(self, c):
        if c[0] == "c":
            return bool(c[1])
        if c[0] in ("eq0", "ne0", "lt0"):
            d, k = to_poly(c[1])
            if not d:
                return {"eq0": k == 0, "ne0": k != 0, "lt0": k < 0}[c[0]]
        return None

    def pieces(self, ev, mode, fs):
        """[str or (term by position, term on the path)] written by the call"""
        _, n, args, inst = ev
        n = (n or "").replace("_unlocked", "")
        ops = inst.ops if inst is not None else None
        two = lambda k: (plain(self.S.t(ops[k])) if ops else None, self.resolve(plain(args[k]), mode, fs))
        if n in ("fputs", "fwrite"):
            s = self.text(args[0], mode, fs)
            if s is None:
                raise Bad(inst.loc, "the text written into the picture is not known", "pixels")
            return [s]
        if n in ("fputc", "putc", "_IO_putc"):
            t = self.resolve(plain(args[0]), mode, fs)
            v = value(t)
            if v is not None and 0 < v < 128:
                return [chr(v)]
            return [(None, add(t, C(-48)))]
        k = 1 if n == "fprintf" else 2
        s = self.text(args[k], mode, fs)
        k += 1
        if s is None:
            raise Bad(inst.loc, "the text written into the picture is not known", "pixels")
        out, pos = [], 0
        for m in SPEC.finditer(s):
            out.append(s[pos:m.start()])
            pos = m.end()
            if m.group(1) == "%":
                out.append("%")
                continue
            if m.group(1) == "s":
                out.append((None, self.number(args[k], mode, fs)) if self.text(args[k], mode, fs) is None else self.text(args[k], mode, fs))
            elif m.group(1) == "c":
                t = two(k)[1]
                out.append(chr(value(t)) if value(t) and 0 < value(t) < 128 else (None, add(t, C(-48))))
            else:
                out.append(two(k))
            k += 1
        out.append(s[pos:])
        return [x for x in out if x != ""]

    def text(self, t, mode, fs):
        t = self.resolve(t, mode, fs)
        if t[0] == "glob":
            g = self.M.globals.get(t[1])
            return options.cstr(self.M, g) if g is not None else None
        return None

    def number(self, t, mode, fs):
        """number spelled by a text that depends on a condition"""
        t = self.resolve(t, mode, fs)
        if t[0] == "sel":
            return self.S.sel(plain(t[1]), self.number(t[2], mode, fs), self.number(t[3], mode, fs))
        s = self.text(t, mode, fs)
        return C(int(s)) if s is not None and s.isdigit() else ("?",)

    def tokens(self, evs, mode, fs):
        """[(pieces)] separated by blanks; raises when two numbers touch"""
        out, cur = [], []
        for e in evs:
            for x in self.pieces(e, mode, fs):
                if isinstance(x, str):
                    for part in re.split(r"(\s+)", x):
                        if part == "":
                            continue
                        if part.isspace():
                            if cur:
                                out.append(cur)
                            cur = []
                        else:
                            cur.append(part)
                else:
                    cur.append(x)
        if cur:
            raise Bad(self.place(evs), "a number written into the picture is not followed by a blank", "pixels")
        return out

    def place(self, evs):
        return next((e[3].loc for e in reversed(evs) if e[3] is not None), self.fn.name)

    def writes(self, p):
        """what is written on the path, short inner loops unrolled"""
        out = []
        for e in p.events:
            if isinstance(e, nest.Store):
                continue
            if e[0] == "call" and self.emits(e):
                out.append(e)
            elif e[0] == "loop" and any(K.blocks <= e[1].blocks for K in self.emit):
                out += self.unroll(e)
        return out

    def unroll(self, e):
        L, out = e[1], []
        now = {h: v for h, v in e[2].items()}
        for _ in range(9):
            env = lambda t: subst(t, lambda x: now.get(x[1]) if x[0] == "phi" and x[1] in now and to_poly(now[x[1]])[0] == {} else None)
            live = [q for q in self.trips[L] if not any(self.truth(env(f)) is False for f in q.facts)]
            if len(live) != 1:
                return []
            q = live[0]
            if q.end is not L.header:
                return out
            if q.loops():
                return []
            for x in q.events:
                if not isinstance(x, nest.Store) and x[0] == "call" and self.emits(x):
                    out.append((x[0], x[1], [env(a) for a in x[2]], None))
            now = {h: env(v) for h, v in q.next.items()}
        return []

    # ---- modes -------------------------------------------------------
    def possible(self, p, k):
        for f in p.facts:
            g = subst(f, lambda x: C(k) if x == MODE else None)
            if g == C(0):
                return False
            if g[0] in ("eq0", "ne0", "lt0"):
                d, c = to_poly(g[1])
                if not d and not {"eq0": c == 0, "ne0": c != 0, "lt0": c < 0}[g[0]]:
                    return False
        return True

    # ---- parts -------------------------------------------------------
    def run(self):
        self.emit = []
        direct = [L for L in self.loops if any(self.emits(e) for q in self.trips[L] for e in q.events)]
        for L in direct:
            # loops that write a fixed number of things are part of what surrounds them
            ups = [e for K in self.loops if L.blocks < K.blocks for q in self.trips[K] for e in q.loops() if e[1] is L]
            if ups and all(self.unroll(e) for e in ups):
                up = cfg_parent(L, self.loops)
                if up is not None and up not in self.emit:
                    self.emit.append(up)
                self.short.append(L)
            elif L not in self.emit:
                self.emit.append(L)
        if not self.emit:
            raise Bad(self.fn.name, "no pixel is written", "pixels")
        self.emit += [L for L in self.short]
        self.main = [L for L in self.emit if L not in self.short]
        self.header()
        self.cells()
        self.pixels()

    def header(self):
        dims = set()
        for p in self.top:
            first = [k for k, e in enumerate(p.events) if not isinstance(e, nest.Store) and e[0] == "loop" and e[1] in self.outer()]
            if len(first) != 1:
                raise Bad(loc(p), "the pixels are not written by one loop", "header")
            at_ = [(k, e) for k, e in enumerate(p.events) if self.emits(e)]
            fs = {plain(f) for f in p.facts}
            for mode in (1, 2, 3):
                if not self.possible(p, mode):
                    continue
                if self.tokens([e for k, e in at_ if k > first[0]], mode, fs):
                    raise Bad(loc(p), "something is written after the pixels", "header")
                toks = self.tokens([e for k, e in at_ if k < first[0]], mode, fs)
                head = "".join(x if isinstance(x, str) else str(value(x[1])) for x in toks[0]) if toks else ""
                if head != "P%d" % mode:
                    raise Bad(loc(p), "the picture does not begin with the mark of its kind", "header")
                rest = toks[1:]
                if len(rest) != (2 if mode == 1 else 3) or any(len(x) != 1 for x in rest) or isinstance(rest[0][0], str) or isinstance(rest[1][0], str):
                    raise Bad(loc(p), "the header does not give the width and the height, and the range of values exactly for gray and color pictures", "header")
                if mode > 1 and rest[2][0] != "255" and (isinstance(rest[2][0], str) or value(rest[2][0][1]) != 255):
                    raise Bad(loc(p), "the range of values announced is not 255", "header")
                (X, x), (Y, y) = rest[0][0], rest[1][0]
                dims.add((X, Y))
                for v, want, full, what in ((x, arg(2), AM, "width"), (y, arg(3), AN, "height")):
                    if not self.clamped(v, want, full, [plain(f) for f in p.facts]):
                        raise Bad(loc(p), "the %s of the picture is not the one asked for, at least 1 and at most the size of the matrix" % what, "header")
        if len(dims) != 1:
            raise Bad(self.fn.name, "the size announced differs from case to case", "header")
        self.X, self.Y = dims.pop()
        self.rep.ok("header", self.fn.name, "%d paths" % len(self.top))

    def clamped(self, v, want, full, fs):
        le = lambda a, b: implied(("lt0", add(add(a, b, -1), C(-1))), fs)
        if v == sym.minmax("max", C(1), sym.minmax("min", want, full)):
            return True
        if v == want:
            return le(want, full) and le(C(1), want)
        if v == full:
            return le(full, want) and le(C(1), full)
        if v == C(1):
            return any(implied(("lt0", add(z, C(-2))), fs) for z in (want, full, sym.minmax("min", want, full)))
        return v == sym.minmax("min", want, full) and le(C(1), v)

    def outer(self):
        return [L for L in self.loops if any(K.blocks <= L.blocks for K in self.main) and not any(L.blocks < K.blocks for K in self.loops)]

    def cells(self):
        """every entry adds 1 to the cell of its row and column"""
        X, Y = self.X, self.Y
        size = mul(C(4), mul(X, Y))
        self.W = None
        done = 0
        tabs = {self.S.t(i) for i in self.fn.calls("spasm_malloc", "malloc", "spasm_calloc", "calloc")}
        for L in self.loops:
            for b in self.trips[L]:
                for e in b.loops():
                    K = e[1]
                    ins = [q for q in self.trips[K] if q.end is K.header]
                    ss = [s for q in ins for s in q.stores() if s.base in tabs]
                    if not ss or any(self.writes(q) for q in ins):
                        continue
                    outs = {id(x[1]): x for p in self.top for x in p.loops() if x[1] is L}
                    if len(outs) != 1:
                        continue
                    R = self.T.counter(L, next(iter(outs.values()))[2], C(0), AN)
                    P = R and self.T.counter(K, e[2], at(AP, R), at(AP, add(R, C(1))))
                    if P is None:
                        raise Bad(loc(ss[0]), "the cells are not counted over every entry of every row", "cells")
                    want = add(mul(X, div(mul(Y, R), AN)), div(mul(X, at(AJ, P)), AM))
                    for q in ins:
                        mine = [s for s in q.stores() if s.base in tabs]
                        if len(mine) != 1:
                            raise Bad(loc(q), "an entry is not counted exactly once", "cells")
                        s = mine[0]
                        base, idx = el_split(plain(s.addr))
                        if idx != want:
                            raise Bad(loc(s), "an entry is not counted in the cell of its place in the matrix", "cells")
                        if plain(s.val) != add(at(base, want), C(1)):
                            raise Bad(loc(s), "an entry does not add one to its cell", "cells")
                        self.W = base
                    for b2 in self.trips[L]:
                        if b2.end is L.header and not any(x[1] is K for x in b2.loops()):
                            raise Bad(loc(b2), "a row is left out of the picture", "cells")
                    done += 1
        if done != 1:
            raise Bad(self.fn.name, "the entries are not counted by one pass over the matrix", "cells")
        zero = False
        for i in self.fn.calls("spasm_calloc", "calloc"):
            zero |= self.S.t(i) == self.W and mul(self.S.t(i.ops[0]), self.S.t(i.ops[1])) == size
        for i in self.fn.calls():
            if (i.callee_name() or "").startswith("llvm.memset") or i.callee_name() == "memset":
                zero |= self.S.t(i.ops[0]) == self.W and self.S.t(i.ops[1]) == C(0) and self.S.t(i.ops[2]) == size
        for p in self.top:
            for e in p.loops():
                k = self.T.counter(e[1], e[2], C(0), mul(X, Y))
                bs = [q for q in self.trips[e[1]] if q.end is e[1].header]
                zero |= k is not None and bool(bs) and all([(s.addr, s.val) for s in q.stores()] == [(el(self.W, k), C(0))] for q in bs)
        if not zero:
            raise Bad(self.fn.name, "the cells do not all start from zero", "cells")
        self.rep.ok("cells", self.fn.name)

    def pixels(self):
        X, Y = self.X, self.Y
        n = 0
        for L in self.main:
            ways = [(p, e) for K in self.loops for p in self.trips[K] for e in p.loops() if e[1] is L] \
                + [(p, e) for p in self.top for e in p.loops() if e[1] is L]
            cells, running = set(), set()
            for p, e in ways:
                k = self.T.counter(L, e[2], C(0), mul(X, Y))
                if k is not None and any(q is p for q in self.top):
                    cells.add(k)
                    continue
                j = self.T.counter(L, e[2], C(0), X)
                if j is None:
                    raise Bad(loc(L), "a line of the picture is not written from its first to its last pixel", "pixels")
                O = [K for K in self.loops if any(q is p for q in self.trips[K])]
                if not O:
                    raise Bad(loc(L), "the lines of the picture are not written one after the other", "pixels")
                if sum(x[1] is L for x in p.loops()) != 1 or any(q.end is O[0].header and not any(x[1] is L for x in q.loops()) for q in self.trips[O[0]]):
                    raise Bad(loc(O[0]), "a line of the picture is left out", "pixels")
                ups = [x for q in self.top for x in q.loops() if x[1] is O[0]]
                for x in ups:
                    i = self.T.counter(O[0], x[2], C(0), Y)
                    if i is None:
                        raise Bad(loc(O[0]), "the lines of the picture are not written from the first to the last", "pixels")
                    cells.add(add(mul(X, i), j))
                    running |= self.running(L, e, O[0], x, j)
            if len(cells) != 1:
                # a loop that only writes line ends
                if not any(self.tokens(self.writes(q), k, ()) for q in self.trips[L] for k in (1, 2, 3) if self.possible(q, k)):
                    continue
                raise Bad(loc(L), "the pixel written is not one of the grid", "pixels")
            grid = {at(self.W, x) for x in cells} | running
            for q in self.trips[L]:
                if q.end is not L.header:
                    if self.writes(q):
                        raise Bad(loc(q), "pixels are written on leaving a line", "pixels")
                    continue
                seen = [c for c in sorted(grid, key=sym.key) if any(c in set(walk(plain(t))) for t in list(q.facts) + [a for e in self.writes(q) for a in e[2]])]
                n += self.pixel(q, seen[0] if seen else sorted(grid, key=sym.key)[0])
        if n < 3:
            raise Bad(self.fn.name, "a kind of picture has no pixels", "pixels")
        self.rep.ok("pixels", self.fn.name, "%d paths" % n)

    def running(self, L, e, O, x, j):
        """cells reached by counters or pointers that go on by one over all the pixels, or by a line at a time"""
        out = set()
        for h in L.header.phis:
            h2 = e[2].get(h)
            if h2 is None or h2[0] != "phi" or h2[1].block is not O.header:
                continue
            if any(q.end is O.header and q.next.get(h2[1]) != ("phi", h) for q in self.trips[O]):
                continue
            me = ("phi", h)
            ends = [q for q in self.trips[L] if q.end is L.header]
            if x[2].get(h2[1]) == C(0) and all(q.next.get(h) == add(me, C(1)) for q in ends):
                out.add(at(self.W, me))
            if x[2].get(h2[1]) == self.W and all(q.next.get(h) == el(me, C(1)) for q in ends):
                out.add(("ld", me))
        for h in O.header.phis:
            me = ("phi", h)
            ends = [q for q in self.trips[O] if q.end is O.header]
            if x[2].get(h) == self.W and all(q.next.get(h) == el(me, self.X) for q in ends):
                out.add(at(me, j))
            if x[2].get(h) == C(0) and all(q.next.get(h) == add(me, self.X) for q in ends):
                out.add(at(self.W, add(me, j)))
        return out

    def pixel(self, q, cell):
        fs = [plain(f) for f in q.facts]
        occ = None
        if implied(("lt0", sym.neg(cell)), fs) or ("ne0", cell) in fs:
            occ = True
        elif implied(("lt0", add(cell, C(-1))), fs) or ("eq0", cell) in fs:
            occ = False
        n = 0
        for mode in (1, 2, 3):
            if not self.possible(q, mode):
                continue
            n += 1
            toks = self.tokens(self.writes(q), mode, fs)
            if len(toks) != (3 if mode == 3 else 1) or any(len(x) != 1 for x in toks):
                raise Bad(loc(q), "a pixel is not written as one number, three in color", "pixels")
            vs = [x[0] for x in toks]
            if mode == 1:
                v = vs[0]
                k = int(v) if isinstance(v, str) and v in "01" else None if isinstance(v, str) else value(v[1])
                if not (k is not None and occ is not None and k == int(occ)) \
                        and not (not isinstance(v, str) and v[1] in (("lt0", sym.neg(cell)), ("ne0", cell))):
                    raise Bad(loc(q), "a pixel is not black exactly when its cell holds an entry", "pixels")
            else:
                if occ is None:
                    raise Bad(loc(q), "the pixel does not depend on whether its cell holds an entry", "pixels")
                if mode == 2:
                    v = vs[0]
                    k = float(v) if isinstance(v, str) else real(v[1])
                    if not occ and k != 255.0 or occ and k == 255.0:
                        raise Bad(loc(q), "a pixel is not white exactly when its cell is empty", "pixels")
                elif occ and any(x != "0" if isinstance(x, str) else value(x[1]) != 0 for x in vs):
                    raise Bad(loc(q), "the pixel of a cell that holds an entry is not black", "pixels")
        return n


def proportion(rep, M):
    """dimensions are multiplied before they are divided"""
    n = 0
    for fn in M.functions.values():
        if fn.name != "main" or not fn.blocks:
            continue
        for u in pts.units(M, ["main"]):
            S = sym.Sym(u, M)
            csr = [S.t(i) for i in u.fn.calls("spasm_compress")]
            for i in u.fn.insts():
                if i.op not in ("sdiv", "udiv") or len(csr) != 1:
                    continue
                num, den = plain(S.t(i.ops[0])), plain(S.t(i.ops[1]))
                n_, m_ = fld(csr[0], 1), fld(csr[0], 2)
                if den not in (n_, m_):
                    continue
                n += 1
                other = m_ if den == n_ else n_
                d, k = to_poly(num)
                if k or len(d) != 1 or list(d.values()) != [1] or other not in list(d)[0] or len(list(d)[0]) < 2:
                    raise Bad(i.loc, "the other dimension of the picture is not the dimension of the matrix times the one asked for, divided by the matching dimension", "proportion")
                rep.ok("proportion", i.loc)
            for i in u.fn.insts():
                t = plain(S.t(i)) if i.op == "mul" else None
                if t is None:
                    continue
                for mono in to_poly(t)[0]:
                    if len(mono) > 1 and any(x[0] == "op" and x[1] == "sdiv" for x in mono):
                        raise Bad(i.loc, "a quotient of dimensions is rounded before it is multiplied", "proportion")


def check(b, rep):
    rep.expl = ("Path-wise symbolic summaries of every loop of the picture writer over LLVM IR: text of the header, cell of every "
                "entry, pixel written for every cell in each of the three modes; integer quotients in the bitmap tool.")
    rep.rule("header", "mark of the kind, width and height (as asked, at least 1, at most the matrix), 255 exactly for gray and color, before the pixels; nothing after")
    rep.rule("cells", "the grid starts from zero and every entry (i, j) adds one to cell (i*height/n, j*width/m)")
    rep.rule("pixels", "every cell is written once, line by line: black iff occupied (bitmap), white iff empty (gray), black if occupied (color)")
    rep.rule("proportion", "the size of the picture derived from one dimension multiplies before dividing")
    try:
        M = b.lib(omp=False)
        for u in pts.units(M, [NAME]):
            Picture(rep, M, u, u.fn).run()
        proportion(rep, b.tool("bitmap"))
    except Bad as e:
        rep.bad(e.rule or "pixels", e.where, "%s" % (e.rule or "pixels"), e.msg)
        return
    rep.need("header", 1)
    rep.need("cells", 1)
    rep.need("pixels", 1)
    rep.assumptions.append("pixel counts of a cell are never negative; how dark an occupied cell is, and the colors of the blocks, are not checked; the real arithmetic of --mpixels is not checked")


if __name__ == "__main__":
    sys.exit(run("P36", check))
