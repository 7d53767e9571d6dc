"""Loads LLVM bitcode through libLLVM's C interface into plain Python objects.

The library is used as a *parser and normaliser only* (inlining, promotion of
locals to SSA); every decision is taken on the Python objects below.
"""
import ctypes as C
import os

_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
          "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"]
_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    for c in _cands:
        if os.path.exists(c):
            _L = C.CDLL(c)
            break
    else:
        raise RuntimeError("libLLVM-18 not found")
    vp, cs, u, i, ll, ull, sz = C.c_void_p, C.c_char_p, C.c_uint, C.c_int, C.c_longlong, C.c_ulonglong, C.c_size_t
    P = C.POINTER

    def f(name, res, *args):
        fn = getattr(_L, name)
        fn.restype = res
        fn.argtypes = list(args)

    f("LLVMContextCreate", vp)
    f("LLVMContextDispose", None, vp)
    f("LLVMCreateMemoryBufferWithContentsOfFile", i, cs, P(vp), P(cs))
    f("LLVMParseBitcodeInContext2", i, vp, vp, P(vp))
    f("LLVMDisposeModule", None, vp)
    f("LLVMLinkModules2", i, vp, vp)
    f("LLVMGetFirstFunction", vp, vp)
    f("LLVMGetNextFunction", vp, vp)
    f("LLVMGetFirstGlobal", vp, vp)
    f("LLVMGetNextGlobal", vp, vp)
    f("LLVMGetInitializer", vp, vp)
    f("LLVMIsGlobalConstant", i, vp)
    f("LLVMGetValueName2", cs, vp, P(sz))
    f("LLVMCountParams", u, vp)
    f("LLVMGetParam", vp, vp, u)
    f("LLVMGetFirstBasicBlock", vp, vp)
    f("LLVMGetNextBasicBlock", vp, vp)
    f("LLVMGetFirstInstruction", vp, vp)
    f("LLVMGetNextInstruction", vp, vp)
    f("LLVMGetInstructionOpcode", i, vp)
    f("LLVMGetNumOperands", i, vp)
    f("LLVMGetOperand", vp, vp, u)
    f("LLVMTypeOf", vp, vp)
    f("LLVMPrintTypeToString", vp, vp)
    f("LLVMPrintValueToString", vp, vp)
    f("LLVMDisposeMessage", None, vp)
    f("LLVMGetTypeKind", i, vp)
    f("LLVMGetStructName", cs, vp)
    f("LLVMGetValueKind", i, vp)
    f("LLVMConstIntGetSExtValue", ll, vp)
    f("LLVMConstIntGetZExtValue", ull, vp)
    f("LLVMGetIntTypeWidth", u, vp)
    f("LLVMConstRealGetDouble", C.c_double, vp, P(i))
    f("LLVMGetICmpPredicate", i, vp)
    f("LLVMGetFCmpPredicate", i, vp)
    f("LLVMGetGEPSourceElementType", vp, vp)
    f("LLVMGlobalGetValueType", vp, vp)
    f("LLVMGetAllocatedType", vp, vp)
    f("LLVMGetCalledValue", vp, vp)
    f("LLVMGetNumArgOperands", u, vp)
    f("LLVMCountIncoming", u, vp)
    f("LLVMGetIncomingValue", vp, vp, u)
    f("LLVMGetIncomingBlock", vp, vp, u)
    f("LLVMGetDebugLocLine", u, vp)
    f("LLVMGetDebugLocFilename", cs, vp, P(u))
    f("LLVMGetConstOpcode", i, vp)
    f("LLVMGetLinkage", i, vp)
    f("LLVMSetLinkage", None, vp, i)
    f("LLVMIsDeclaration", i, vp)
    f("LLVMGetMDKindIDInContext", u, vp, cs, u)
    f("LLVMGetMetadata", vp, vp, u)
    f("LLVMGetMDNodeNumOperands", u, vp)
    f("LLVMGetMDNodeOperands", None, vp, P(vp))
    f("LLVMGetMDString", cs, vp, P(u))
    f("LLVMGetEnumAttributeKindForName", u, cs, sz)
    f("LLVMCreateEnumAttribute", vp, vp, u, C.c_uint64)
    f("LLVMAddAttributeAtIndex", None, vp, u, vp)
    f("LLVMRemoveEnumAttributeAtIndex", None, vp, u, u)
    f("LLVMCreatePassBuilderOptions", vp)
    f("LLVMDisposePassBuilderOptions", None, vp)
    f("LLVMRunPasses", vp, vp, cs, vp, vp)
    f("LLVMGetErrorMessage", vp, vp)
    f("LLVMWriteBitcodeToFile", i, vp, cs)
    f("LLVMGetAtomicRMWBinOp", i, vp)
    f("LLVMGetOrdering", i, vp)
    f("LLVMGetVolatile", i, vp)
    f("LLVMIsConditional", i, vp)
    f("LLVMValueAsBasicBlock", vp, vp)
    f("LLVMGetAsString", cs, vp, P(sz))
    f("LLVMIsConstantString", i, vp)
    f("LLVMGetElementAsConstant", vp, vp, u)
    f("LLVMGetArrayLength2", C.c_uint64, vp)
    f("LLVMGetElementType", vp, vp)
    f("LLVMGlobalGetValueType", vp, vp)
    f("LLVMGetNumIndices", u, vp)
    f("LLVMGetIndices", P(u), vp)
    f("LLVMCountStructElementTypes", u, vp)
    f("LLVMStructGetTypeAtIndex", vp, vp, u)
    f("LLVMPrintModuleToFile", i, vp, cs, P(vp))
    return _L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv",
       17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui",
       34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr",
       41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       47: "userop1", 48: "userop2", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 61: "cleanupret", 62: "catchret", 63: "catchpad", 64: "cleanuppad",
       65: "catchswitch"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax",
       10: "umin", 11: "fadd", 12: "fsub"}
TK = {0: "void", 2: "float", 3: "double", 7: "label", 8: "int", 9: "func", 10: "struct", 11: "array", 12: "ptr",
      13: "vector", 14: "metadata"}
# LLVMValueKind
VK_ARG, VK_BB, VK_FUNC, VK_GALIAS, VK_GVAR, VK_CEXPR = 0, 1, 5, 6, 8, 10


class Value:
    __slots__ = ("kind", "type", "name", "val", "ops", "op", "extra", "fn", "idx", "uses", "init", "const", "srctype")

    def __init__(self, kind, type, name=None, val=None):
        self.kind = kind
        self.type = type
        self.name = name
        self.val = val
        self.ops = ()
        self.op = None
        self.extra = None
        self.fn = None
        self.idx = None
        self.uses = []
        self.init = None
        self.srctype = None
        self.const = False

    def is_int(self):
        return self.kind == "int"

    def __repr__(self):
        if self.kind == "int":
            return "%d" % self.val
        if self.kind in ("arg",):
            return "%" + (self.name or "arg%d" % self.idx)
        if self.kind in ("global", "func"):
            return "@" + (self.name or "?")
        if self.kind == "null":
            return "null"
        return "<%s %s>" % (self.kind, self.name or self.val or self.op)


class Inst(Value):
    __slots__ = ("block", "line", "file", "pred", "callee", "incoming", "targets", "cases", "tbaa",
                 "volatile", "ordering", "rmw", "id", "indices")

    def __init__(self, op, type):
        Value.__init__(self, "inst", type)
        self.op = op
        self.block = None
        self.line = 0
        self.file = None
        self.pred = None
        self.srctype = None
        self.callee = None
        self.incoming = None
        self.targets = ()
        self.cases = None
        self.tbaa = None
        self.volatile = False
        self.ordering = 0
        self.rmw = None
        self.id = 0
        self.indices = None

    @property
    def loc(self):
        f = self.file or "?"
        return "%s:%d" % (os.path.basename(f), self.line)

    def callee_name(self):
        if self.callee is not None and self.callee.kind == "func":
            return self.callee.name
        return None

    def __repr__(self):
        return "%" + (self.name or "t%d" % self.id)

    def pretty(self):
        s = ""
        if self.type != "void":
            s = repr(self) + " = "
        s += self.op
        if self.pred:
            s += " " + self.pred
        if self.op == "call":
            s += " " + repr(self.callee)
        if self.op == "phi":
            return s + " " + ", ".join("[%r, %s]" % (v, b.name) for v, b in self.incoming)
        if self.srctype:
            s += " " + self.srctype
        s += " " + ", ".join(repr(o) if not isinstance(o, Block) else o.name for o in self.ops)
        if self.targets:
            s += " -> " + ", ".join(b.name for b in self.targets)
        return s + "   ; " + self.loc


class Block:
    __slots__ = ("name", "insts", "fn", "preds", "succs", "idx", "rpo")

    def __init__(self, name, fn):
        self.name = name
        self.insts = []
        self.fn = fn
        self.preds = []
        self.succs = []
        self.idx = 0
        self.rpo = -1

    @property
    def term(self):
        return self.insts[-1]

    @property
    def phis(self):
        out = []
        for i in self.insts:
            if i.op != "phi":
                break
            out.append(i)
        return out

    def __repr__(self):
        return "bb:" + self.name


class Function(Value):
    __slots__ = ("args", "blocks", "decl", "internal", "module", "_cache")

    def __init__(self, name):
        Value.__init__(self, "func", "ptr", name)
        self.args = []
        self.blocks = []
        self.decl = True
        self.internal = False
        self.module = None
        self._cache = {}

    @property
    def entry(self):
        return self.blocks[0]

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    def calls(self, *names):
        for i in self.insts():
            if i.op == "call" and (not names or i.callee_name() in names):
                yield i

    def dump(self):
        out = ["define %s(%s)" % (self.name, ", ".join(repr(a) for a in self.args))]
        for b in self.blocks:
            out.append("%s:   ; preds %s" % (b.name, ",".join(p.name for p in b.preds)))
            for i in b.insts:
                out.append("    " + i.pretty())
        return "\n".join(out)


class Module:
    def __init__(self):
        self.functions = {}
        self.globals = {}
        self.structs = {}      # name -> [field type strings]

    def defined(self):
        return [f for f in self.functions.values() if not f.decl]


PASSES = b"always-inline,function(sroa,mem2reg,dce),globaldce"


class Loader:
    def __init__(self):
        self.L = _lib()
        self.ctx = self.L.LLVMContextCreate()
        self.mod = None

    def add(self, path):
        L = self.L
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        if self.mod is None:
            self.mod = m
        else:
            if L.LLVMLinkModules2(self.mod, m):
                raise RuntimeError("cannot link " + path)

    def _vname(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(v, C.byref(n))
        return s.decode() if s else ""

    def normalise(self, keep, passes=PASSES):
        """Inline every function whose name is not in `keep` (helpers), promote locals."""
        L = self.L
        ai = L.LLVMGetEnumAttributeKindForName(b"alwaysinline", 12)
        ni = L.LLVMGetEnumAttributeKindForName(b"noinline", 8)
        on = L.LLVMGetEnumAttributeKindForName(b"optnone", 7)
        attr = L.LLVMCreateEnumAttribute(self.ctx, ai, 0)
        f = L.LLVMGetFirstFunction(self.mod)
        while f:
            if not L.LLVMIsDeclaration(f):
                name = self._vname(f)
                FN = C.c_uint(0xFFFFFFFF)
                L.LLVMRemoveEnumAttributeAtIndex(f, FN, ni)
                L.LLVMRemoveEnumAttributeAtIndex(f, FN, on)
                if keep is not None and name not in keep:
                    L.LLVMSetLinkage(f, 8)
                    L.LLVMAddAttributeAtIndex(f, FN, attr)
                elif keep is not None:
                    L.LLVMSetLinkage(f, 0)
            f = L.LLVMGetNextFunction(f)
        o = L.LLVMCreatePassBuilderOptions()
        err = L.LLVMRunPasses(self.mod, passes, None, o)
        if err:
            raise RuntimeError("passes failed: " + C.cast(L.LLVMGetErrorMessage(err), C.c_char_p).value.decode())
        L.LLVMDisposePassBuilderOptions(o)

    def write(self, path):
        m = C.c_void_p()
        self.L.LLVMPrintModuleToFile(self.mod, path.encode(), C.byref(m))

    # ---- conversion -------------------------------------------------------
    def load(self, only=None):
        L = self.L
        M = Module()
        self.M = M
        self.types = {}
        self.vals = {}
        self.tbaa_kind = L.LLVMGetMDKindIDInContext(self.ctx, b"tbaa", 4)
        self.tb = {}
        g = L.LLVMGetFirstGlobal(self.mod)
        globs = []
        while g:
            v = Value("global", "ptr", self._vname(g))
            v.extra = self.ty(L.LLVMGlobalGetValueType(g))
            v.const = bool(L.LLVMIsGlobalConstant(g))
            self.vals[g] = v
            M.globals[v.name] = v
            globs.append((g, v))
            g = L.LLVMGetNextGlobal(g)
        f = L.LLVMGetFirstFunction(self.mod)
        fs = []
        while f:
            fn = Function(self._vname(f))
            fn.decl = bool(L.LLVMIsDeclaration(f))
            fn.internal = L.LLVMGetLinkage(f) == 8
            fn.module = M
            self.vals[f] = fn
            M.functions[fn.name] = fn
            fs.append((f, fn))
            f = L.LLVMGetNextFunction(f)
        for g, v in globs:
            v.srctype = self.ty(L.LLVMGlobalGetValueType(g))
            ini = L.LLVMGetInitializer(g) if not L.LLVMIsDeclaration(g) else None
            if ini:
                v.init = self.const(ini)
        for f, fn in fs:
            if fn.decl or (only and not only(fn.name)):
                continue
            self.fun(f, fn)
        L.LLVMDisposeModule(self.mod)
        L.LLVMContextDispose(self.ctx)
        return M

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetTypeKind(t)
        if k == 10:
            n = L.LLVMGetStructName(t)
            if n:
                r = "%" + n.decode()
                self.types[t] = r
                self.M.structs[r] = [self.ty(L.LLVMStructGetTypeAtIndex(t, i))
                                     for i in range(L.LLVMCountStructElementTypes(t))]
                return r
            r = "{" + ", ".join(self.ty(L.LLVMStructGetTypeAtIndex(t, i))
                                for i in range(L.LLVMCountStructElementTypes(t))) + "}"
            self.types[t] = r
            return r
        if k == 11:
            r = "[%d x %s]" % (L.LLVMGetArrayLength2(t), self.ty(L.LLVMGetElementType(t)))
            self.types[t] = r
            return r
        p = L.LLVMPrintTypeToString(t)
        r = C.cast(p, C.c_char_p).value.decode()
        L.LLVMDisposeMessage(p)
        self.types[t] = r
        return r

    def const(self, v):
        r = self.vals.get(v)
        if r is not None:
            return r
        L = self.L
        k = L.LLVMGetValueKind(v)
        t = self.ty(L.LLVMTypeOf(v))
        if t[0] == "i" and t[1:].isdigit() and k not in (VK_CEXPR,):
            w = int(t[1:])
            s = self._print(v)
            tail = s.split()[-1]
            if tail in ("undef", "poison"):
                r = Value("undef", t)
            elif w == 1:
                r = Value("int", t, None, 1 if tail == "true" else 0)
            elif w <= 64:
                r = Value("int", t, None, L.LLVMConstIntGetSExtValue(v))
            else:
                r = Value("int", t, None, int(tail))
        elif t in ("double", "float"):
            s = self._print(v)
            if s.endswith("undef") or s.endswith("poison"):
                r = Value("undef", t)
            else:
                lo = C.c_int()
                r = Value("fp", t, None, L.LLVMConstRealGetDouble(v, C.byref(lo)))
        elif k == VK_CEXPR:
            r = Value("cexpr", t)
            r.op = OPC.get(L.LLVMGetConstOpcode(v), "?")
            r.ops = tuple(self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v)))
            if r.op == "gep":
                r.srctype = self.ty(L.LLVMGetGEPSourceElementType(v))
        else:
            if k in (14, 25):
                r = Value("undef", t)
            elif k == 15:
                r = Value("zero", t)
            elif k == 16:
                if L.LLVMIsConstantString(v):
                    n = C.c_size_t()
                    L.LLVMGetAsString.restype = C.POINTER(C.c_char)
                    p = L.LLVMGetAsString(v, C.byref(n))
                    r = Value("str", t, None, p[:n.value])
                else:
                    r = Value("agg", t)
                    n = L.LLVMGetArrayLength2(L.LLVMTypeOf(v))
                    r.ops = tuple(self.const(L.LLVMGetElementAsConstant(v, i)) for i in range(n))
            elif k in (11, 12):
                r = Value("agg", t)
                n = L.LLVMGetNumOperands(v)
                r.ops = tuple(self.const(L.LLVMGetOperand(v, i)) for i in range(n))
            elif k == 20:
                r = Value("null", t)
            else:
                r = Value("other", t)
        self.vals[v] = r
        return r

    def _print(self, v):
        p = self.L.LLVMPrintValueToString(v)
        r = C.cast(p, C.c_char_p).value.decode(errors="replace")
        self.L.LLVMDisposeMessage(p)
        return r

    def fun(self, f, fn):
        L = self.L
        fn.args = []
        for i in range(L.LLVMCountParams(f)):
            p = L.LLVMGetParam(f, i)
            a = Value("arg", self.ty(L.LLVMTypeOf(p)), self._vname(p))
            a.idx = i
            a.fn = fn
            self.vals[p] = a
            fn.args.append(a)
        bbs = []
        b = L.LLVMGetFirstBasicBlock(f)
        insts = []
        n = 0
        while b:
            bb = Block("", fn)
            bb.idx = len(bbs)
            self.vals[b] = bb
            bbs.append(bb)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                op = OPC[L.LLVMGetInstructionOpcode(i)]
                skip = False
                if op == "call":
                    cn = self._vname(L.LLVMGetCalledValue(i))
                    if cn.startswith("llvm.dbg.") or cn.startswith("llvm.lifetime.") or cn.startswith("llvm.assume") \
                            or cn.startswith("llvm.experimental.noalias"):
                        skip = True
                if not skip:
                    ins = Inst(op, self.ty(L.LLVMTypeOf(i)))
                    ins.id = n
                    n += 1
                    ins.name = self._vname(i)
                    ins.block = bb
                    ins.fn = fn
                    ins.line = L.LLVMGetDebugLocLine(i)
                    ln = C.c_uint()
                    fl = L.LLVMGetDebugLocFilename(i, C.byref(ln))
                    ins.file = fl.decode() if fl else None
                    self.vals[i] = ins
                    bb.insts.append(ins)
                    insts.append((i, ins))
                i = L.LLVMGetNextInstruction(i)
            bb.name = self._bbname(b, bb)
            b = L.LLVMGetNextBasicBlock(b)
        fn.blocks = bbs
        for i, ins in insts:
            nops = L.LLVMGetNumOperands(i)
            if ins.op == "phi":
                ins.incoming = [(self.val(L.LLVMGetIncomingValue(i, k)), self.vals[L.LLVMGetIncomingBlock(i, k)])
                                for k in range(L.LLVMCountIncoming(i))]
                ins.ops = tuple(v for v, _ in ins.incoming)
            elif ins.op == "br":
                raw = [self.val(L.LLVMGetOperand(i, k)) for k in range(nops)]
                if nops == 1:
                    ins.targets = (raw[0],)
                    ins.ops = ()
                else:
                    ins.ops = (raw[0],)
                    ins.targets = (raw[2], raw[1])      # true, false
            elif ins.op == "switch":
                raw = [self.val(L.LLVMGetOperand(i, k)) for k in range(nops)]
                ins.ops = (raw[0],)
                ins.cases = [(raw[k].val, raw[k + 1]) for k in range(2, nops, 2)]
                ins.targets = (raw[1],) + tuple(b for _, b in ins.cases)
            elif ins.op == "call" or ins.op == "invoke":
                na = L.LLVMGetNumArgOperands(i)
                ins.callee = self.val(L.LLVMGetCalledValue(i))
                ins.ops = tuple(self.val(L.LLVMGetOperand(i, k)) for k in range(na))
                if ins.op == "invoke":
                    ins.targets = tuple(self.vals[L.LLVMGetOperand(i, nops - k)] for k in (3, 2))
            else:
                ins.ops = tuple(self.val(L.LLVMGetOperand(i, k)) for k in range(nops))
            if ins.op == "icmp":
                ins.pred = ICMP[L.LLVMGetICmpPredicate(i)]
            elif ins.op == "fcmp":
                ins.pred = FCMP[L.LLVMGetFCmpPredicate(i)]
            elif ins.op == "gep":
                ins.srctype = self.ty(L.LLVMGetGEPSourceElementType(i))
            elif ins.op == "alloca":
                ins.srctype = self.ty(L.LLVMGetAllocatedType(i))
            elif ins.op in ("extractvalue", "insertvalue"):
                p = L.LLVMGetIndices(i)
                ins.indices = [p[k] for k in range(L.LLVMGetNumIndices(i))]
            elif ins.op == "atomicrmw":
                ins.rmw = RMW.get(L.LLVMGetAtomicRMWBinOp(i), "?")
            if ins.op in ("load", "store"):
                ins.volatile = bool(L.LLVMGetVolatile(i))
                ins.ordering = L.LLVMGetOrdering(i)
                md = L.LLVMGetMetadata(i, self.tbaa_kind)
                if md:
                    ins.tbaa = self.tbaa(md)
            for o in set(x for x in ins.ops if isinstance(x, Value)):
                o.uses.append(ins)
        for bb in fn.blocks:
            t = bb.insts[-1]
            seen = []
            for s in t.targets:
                if s not in seen:
                    seen.append(s)
            bb.succs = seen
            for s in seen:
                s.preds.append(bb)
        # drop unreachable blocks
        reach = set()
        st = [fn.blocks[0]]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(x.succs)
        if len(reach) != len(fn.blocks):
            fn.blocks = [b for b in fn.blocks if b in reach]
            for b in fn.blocks:
                b.preds = [p for p in b.preds if p in reach]
                for ph in b.phis:
                    ph.incoming = [(v, p) for v, p in ph.incoming if p in reach]
                    ph.ops = tuple(v for v, _ in ph.incoming)
            for v in list(self.vals.values()):
                if isinstance(v, Value) and v.uses:
                    v.uses = [u for u in v.uses if u.fn is not fn or u.block in reach]

    def _bbname(self, b, bb):
        # basic blocks are values too
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(b, C.byref(n))
        return (s.decode() if s else "") or "b%d" % bb.idx

    def val(self, v):
        r = self.vals.get(v)
        if r is not None:
            return r
        return self.const(v) if self.L.LLVMGetValueKind(v) not in (22, 23, 24) or True else None

    def tbaa(self, md):
        r = self.tb.get(md)
        if r is not None:
            return r
        L = self.L
        n = L.LLVMGetMDNodeNumOperands(md)
        arr = (C.c_void_p * n)()
        L.LLVMGetMDNodeOperands(md, arr)

        def nm(node):
            k = L.LLVMGetMDNodeNumOperands(node)
            a = (C.c_void_p * k)()
            L.LLVMGetMDNodeOperands(node, a)
            ln = C.c_uint()
            s = L.LLVMGetMDString(a[0], C.byref(ln))
            return s[:ln.value].decode() if s else "?"
        r = (nm(arr[0]), nm(arr[1]), L.LLVMConstIntGetSExtValue(arr[2]))
        self.tb[md] = r
        return r
