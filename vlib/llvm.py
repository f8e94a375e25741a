"""Thin reader of LLVM-18 IR through the LLVM C API (ctypes, no build step).

It parses bitcode produced by clang from a witness translation unit, marks which
functions are inlined and which stay as opaque primitives, runs a fixed pass
pipeline and converts the functions of interest into plain Python objects."""
import ctypes as C, re, subprocess, os, functools

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so.1")
P = C.c_void_p


def _fn(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

u, i, sz, cs = C.c_uint, C.c_int, C.c_size_t, C.c_char_p
CtxCreate = _fn("LLVMContextCreate", P)
CtxDispose = _fn("LLVMContextDispose", None, P)
MemBufFile = _fn("LLVMCreateMemoryBufferWithContentsOfFile", i, cs, C.POINTER(P), C.POINTER(P))
ParseIR = _fn("LLVMParseIRInContext", i, P, P, C.POINTER(P), C.POINTER(P))
DisposeModule = _fn("LLVMDisposeModule", None, P)
FirstFn = _fn("LLVMGetFirstFunction", P, P)
NextFn = _fn("LLVMGetNextFunction", P, P)
NamedFn = _fn("LLVMGetNamedFunction", P, P, cs)
IsDecl = _fn("LLVMIsDeclaration", i, P)
ValName = _fn("LLVMGetValueName2", C.c_void_p, P, C.POINTER(sz))
FirstBB = _fn("LLVMGetFirstBasicBlock", P, P)
NextBB = _fn("LLVMGetNextBasicBlock", P, P)
FirstI = _fn("LLVMGetFirstInstruction", P, P)
NextI = _fn("LLVMGetNextInstruction", P, P)
Term_ = _fn("LLVMGetBasicBlockTerminator", P, P)
NumSucc = _fn("LLVMGetNumSuccessors", u, P)
Succ = _fn("LLVMGetSuccessor", P, P, u)
Opcode = _fn("LLVMGetInstructionOpcode", i, P)
NumOps = _fn("LLVMGetNumOperands", i, P)
Operand = _fn("LLVMGetOperand", P, P, u)
TypeOf = _fn("LLVMTypeOf", P, P)
TypeKind = _fn("LLVMGetTypeKind", i, P)
IntWidth = _fn("LLVMGetIntTypeWidth", u, P)
PrintType = _fn("LLVMPrintTypeToString", C.c_void_p, P)
PrintVal = _fn("LLVMPrintValueToString", C.c_void_p, P)
DisposeMsg = _fn("LLVMDisposeMessage", None, C.c_void_p)
ValueKind = _fn("LLVMGetValueKind", i, P)
ZExtVal = _fn("LLVMConstIntGetZExtValue", C.c_uint64, P)
SExtVal = _fn("LLVMConstIntGetSExtValue", C.c_int64, P)
RealVal = _fn("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(i))
ICmpPred = _fn("LLVMGetICmpPredicate", i, P)
FCmpPred = _fn("LLVMGetFCmpPredicate", i, P)
CalledVal = _fn("LLVMGetCalledValue", P, P)
NumArgOps = _fn("LLVMGetNumArgOperands", u, P)
GEPSrcTy = _fn("LLVMGetGEPSourceElementType", P, P)
NumIdx = _fn("LLVMGetNumIndices", u, P)
Indices = _fn("LLVMGetIndices", C.POINTER(u), P)
NumParams = _fn("LLVMCountParams", u, P)
Param = _fn("LLVMGetParam", P, P, u)
NumIncoming = _fn("LLVMCountIncoming", u, P)
IncVal = _fn("LLVMGetIncomingValue", P, P, u)
IncBB = _fn("LLVMGetIncomingBlock", P, P, u)
IsCond = _fn("LLVMIsConditional", i, P)
Cond = _fn("LLVMGetCondition", P, P)
AllocTy = _fn("LLVMGetAllocatedType", P, P)
DataLayout = _fn("LLVMGetModuleDataLayout", P, P)
ABISize = _fn("LLVMABISizeOfType", C.c_uint64, P, P)
StructOff = _fn("LLVMOffsetOfElement", C.c_uint64, P, P, u)
StructElemTy = _fn("LLVMStructGetTypeAtIndex", P, P, u)
NumStructElems = _fn("LLVMCountStructElementTypes", u, P)
ElemTy = _fn("LLVMGetElementType", P, P)
ArrayLen = _fn("LLVMGetArrayLength2", C.c_uint64, P)
ConstOpcode = _fn("LLVMGetConstOpcode", i, P)
GlobalInit = _fn("LLVMGetInitializer", P, P)
IsGConst = _fn("LLVMIsGlobalConstant", i, P)
AggElem = _fn("LLVMGetAggregateElement", P, P, u)
IsConstStr = _fn("LLVMIsConstantString", i, P)
AsString = _fn("LLVMGetAsString", C.c_void_p, P, C.POINTER(sz))
DebugLoc = _fn("LLVMInstructionGetDebugLoc", P, P)
LocLine = _fn("LLVMDILocationGetLine", u, P)
LocScope = _fn("LLVMDILocationGetScope", P, P)
LocInl = _fn("LLVMDILocationGetInlinedAt", P, P)
ScopeFile = _fn("LLVMDIScopeGetFile", P, P)
FileName = _fn("LLVMDIFileGetFilename", C.c_void_p, P, C.POINTER(u))
FileDir = _fn("LLVMDIFileGetDirectory", C.c_void_p, P, C.POINTER(u))
SubProg = _fn("LLVMGetSubprogram", P, P)
SPLine = _fn("LLVMDISubprogramGetLine", u, P)
AttrKind = _fn("LLVMGetEnumAttributeKindForName", u, cs, sz)
CreateEnumAttr = _fn("LLVMCreateEnumAttribute", P, P, u, C.c_uint64)
AddAttr = _fn("LLVMAddAttributeAtIndex", None, P, u, P)
RemAttr = _fn("LLVMRemoveEnumAttributeAtIndex", None, P, u, u)
GetAttr = _fn("LLVMGetEnumAttributeAtIndex", P, P, u, u)
GetCallAttr = _fn("LLVMGetCallSiteEnumAttribute", P, P, u, u)
RunPasses = _fn("LLVMRunPasses", P, P, cs, P, P)
CreatePBO = _fn("LLVMCreatePassBuilderOptions", P)
DisposePBO = _fn("LLVMDisposePassBuilderOptions", None, P)
PBOSLP = _fn("LLVMPassBuilderOptionsSetSLPVectorization", None, P, i)
PBOLV = _fn("LLVMPassBuilderOptionsSetLoopVectorization", None, P, i)
PBOUnroll = _fn("LLVMPassBuilderOptionsSetLoopUnrolling", None, P, i)
PBOInline = _fn("LLVMPassBuilderOptionsSetInlinerThreshold", None, P, i)
ErrMsg = _fn("LLVMGetErrorMessage", C.c_void_p, P)
Linkage = _fn("LLVMGetLinkage", i, P)
SetLinkage = _fn("LLVMSetLinkage", None, P, i)
NumMask = _fn("LLVMGetNumMaskElements", u, P)
MaskVal = _fn("LLVMGetMaskValue", i, P, u)
ParentFn = _fn("LLVMGetBasicBlockParent", P, P)
InstParent = _fn("LLVMGetInstructionParent", P, P)
BBAsVal = _fn("LLVMBasicBlockAsValue", P, P)
FirstUse = _fn("LLVMGetFirstUse", P, P)
FirstGlobal = _fn("LLVMGetFirstGlobal", P, P)
NextGlobal = _fn("LLVMGetNextGlobal", P, P)
for _n in ("LLVMInitializeX86TargetInfo", "LLVMInitializeX86Target", "LLVMInitializeX86TargetMC"):
    try:
        getattr(_L, _n)()
    except AttributeError:
        pass

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 47: "userop1", 48: "userop2", 49: "vaarg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 68: "freeze", 60: "addrspacecast"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
        9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
# LLVMValueKind
VK_ARG, VK_BB, VK_FN, VK_ALIAS, VK_GVAR, VK_CE, VK_CVEC = 0, 1, 5, 6, 8, 10, 11
_VK_NAMES = None


def _s(ptr):
    if not ptr:
        return ""
    r = C.string_at(ptr).decode("utf8", "replace")
    DisposeMsg(ptr)
    return r


def vname(v):
    n = sz()
    p = ValName(v, C.byref(n))
    return C.string_at(p, n.value).decode() if p else ""


_demcache = {}


def demangle(names):
    todo = [n for n in set(names) if n not in _demcache]
    if todo:
        r = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(todo), capture_output=True, text=True)
        for n, d in zip(todo, r.stdout.split("\n")):
            _demcache[n] = d
    return [_demcache[n] for n in names]


def _fileof(scope):
    if not scope:
        return ""
    f = ScopeFile(scope)
    if not f:
        return ""
    n = u()
    p = FileName(f, C.byref(n))
    name = C.string_at(p, n.value).decode() if p else ""
    if not name.startswith("/"):
        p = FileDir(f, C.byref(n))
        d = C.string_at(p, n.value).decode() if p else ""
        name = os.path.normpath(os.path.join(d, name))
    return os.path.normpath(name)


class Type:
    __slots__ = ("kind", "bits", "size", "elems", "offs", "n", "s")

    def __repr__(self):
        return self.s


class Inst:
    __slots__ = ("id", "op", "ty", "ops", "x", "loc", "bb", "name")

    def __repr__(self):
        return f"%{self.id} = {self.op} {self.ty} {self.ops} {self.x}"


class Block:
    __slots__ = ("id", "insts", "succs", "preds")


class Func:
    pass


class Module:
    def __init__(self, path):
        self.ctx = CtxCreate()
        buf, err, m = P(), P(), P()
        if MemBufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.dl = DataLayout(m)
        self._types = {}
        self.path = path

    def functions(self):
        f = FirstFn(self.m)
        while f:
            yield f
            f = NextFn(f)

    def fn_file(self, f):
        sp = SubProg(f)
        return _fileof(sp) if sp else ""

    def kind(self, name):
        return AttrKind(name.encode(), len(name))

    def add_attr(self, f, name):
        AddAttr(f, 0xFFFFFFFF, CreateEnumAttr(self.ctx, self.kind(name), 0))

    def rem_attr(self, f, name):
        RemAttr(f, 0xFFFFFFFF, self.kind(name))

    def has_attr(self, f, name):
        return bool(GetAttr(f, 0xFFFFFFFF, self.kind(name)))

    def mark(self, inline_pred):
        """inline_pred(demangled, file, name) -> True alwaysinline / False noinline / None untouched"""
        fs = [f for f in self.functions() if not IsDecl(f)]
        names = [vname(f) for f in fs]
        for f, n, d in zip(fs, names, demangle(names)):
            r = inline_pred(d, self.fn_file(f), n)
            self.rem_attr(f, "optnone")
            if r is True:
                self.rem_attr(f, "noinline")
                self.add_attr(f, "alwaysinline")
            elif r is False:
                self.rem_attr(f, "alwaysinline")
                self.add_attr(f, "noinline")

    def run(self, passes, unroll=True):
        o = CreatePBO()
        PBOSLP(o, 0)
        PBOLV(o, 0)
        PBOUnroll(o, 1 if unroll else 0)
        e = RunPasses(self.m, passes.encode(), None, o)
        DisposePBO(o)
        if e:
            raise RuntimeError("pass pipeline failed: " + C.string_at(ErrMsg(e)).decode())

    def ty(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        r = Type()
        self._types[t] = r
        k = TypeKind(t)
        p = PrintType(t)
        r.s = _s(p)
        r.bits = r.size = r.n = 0
        r.elems = r.offs = None
        if k == 0:
            r.kind = "void"
        elif k == 1:
            r.kind = "half"
        elif k == 2:
            r.kind, r.size = "float", 4
        elif k == 3:
            r.kind, r.size = "double", 8
        elif k == 4:
            r.kind, r.size = "x86_fp80", 16
        elif k in (5, 6):
            r.kind, r.size = "fp128", 16
        elif k == 7:
            r.kind = "label"
        elif k == 8:
            r.kind, r.bits = "int", IntWidth(t)
            r.size = (r.bits + 7) // 8
        elif k == 9:
            r.kind = "func"
        elif k == 10:
            r.kind = "struct"
            try:
                r.size = ABISize(self.dl, t)
                r.elems = [self.ty(StructElemTy(t, j)) for j in range(NumStructElems(t))]
                r.offs = [StructOff(self.dl, t, j) for j in range(len(r.elems))]
            except Exception:
                pass
        elif k == 11:
            r.kind, r.n = "array", ArrayLen(t)
            r.elems = [self.ty(ElemTy(t))]
            r.size = ABISize(self.dl, t)
        elif k == 12:
            r.kind, r.size = "ptr", 8
        elif k == 13:
            r.kind = "vector"
            r.elems = [self.ty(ElemTy(t))]
            r.size = ABISize(self.dl, t)
            r.n = r.size // max(1, r.elems[0].size)
        else:
            r.kind = "other%d" % k
        return r

    # ---- operand conversion: ('v', id) | ('i', bits, val) | ('f', val, kind) | ('null',) | ('undef',)
    #      | ('g', name) | ('fn', name) | ('agg', type, [..]) | ('gep', base, off) | ('ce', text)
    def operand(self, v, ids):
        if v in ids:
            return ("v", ids[v])
        txt = None
        k = ValueKind(v)
        t = self.ty(TypeOf(v))
        if k == VK_FN:
            return ("fn", vname(v))
        if k == VK_GVAR or k == VK_ALIAS:
            return ("g", vname(v))
        kn = VKN.get(k, "")
        if kn == "int":
            if t.bits <= 64:
                return ("i", t.bits, ZExtVal(v))
            s = _s(PrintVal(v)).split()[-1]
            return ("i", t.bits, int(s) & ((1 << t.bits) - 1))
        if kn == "fp":
            li = i()
            if t.kind == "x86_fp80":
                return ("f", _fp80(_s(PrintVal(v)).split()[-1]), t.kind)
            return ("f", RealVal(v, C.byref(li)), t.kind)
        if kn == "null":
            return ("null",)
        if kn in ("undef", "poison"):
            return ("undef",)
        if kn == "aggzero":
            return ("zero", t)
        if kn in ("array", "struct", "vector", "data"):
            n = t.n if t.kind in ("array", "vector") else len(t.elems)
            return ("agg", t, [self.operand(AggElem(v, j), ids) for j in range(n)])
        if kn == "expr":
            oc = OPC.get(ConstOpcode(v), "?")
            if oc == "gep":
                b = self.operand(Operand(v, 0), ids)
                off = self._gepoff(v, ids)
                if off is not None and all(isinstance(o, int) for o in off):
                    return ("gep", b, sum(off))
            return ("ce", oc, _s(PrintVal(v)))
        return ("ce", "?", _s(PrintVal(v)))

    def _gepoff(self, v, ids):
        """list of int | (stride, operand)"""
        t = self.ty(GEPSrcTy(v))
        out = []
        n = NumOps(v)
        for j in range(1, n):
            o = self.operand(Operand(v, j), ids)
            if j == 1:
                s = t.size
            elif t.kind == "struct":
                idx = o[2]
                out.append(t.offs[idx])
                t = t.elems[idx]
                continue
            elif t.kind in ("array", "vector"):
                t = t.elems[0]
                s = t.size
            else:
                return None
            if o[0] == "i":
                val = o[2]
                if val >> (o[1] - 1):
                    val -= 1 << o[1]
                out.append(val * s)
            elif o[0] in ("zero", "null"):
                out.append(0)
            else:
                out.append((s, o))
        return out

    def loc(self, inst):
        d = DebugLoc(inst)
        chain = []
        while d:
            chain.append((_fileof(LocScope(d)), LocLine(d)))
            d = LocInl(d)
        return chain

    def function(self, name):
        f = NamedFn(self.m, name.encode())
        if not f or IsDecl(f):
            return None
        return self._conv(f)

    def _conv(self, f):
        F = Func()
        F.name = vname(f)
        F.file = self.fn_file(f)
        ids, nxt = {}, 0
        F.params = []
        for j in range(NumParams(f)):
            p = Param(f, j)
            ids[p] = nxt
            sret = bool(GetAttr(f, j + 1, self.kind("sret")))
            F.params.append((nxt, self.ty(TypeOf(p)), sret))
            nxt += 1
        bbs = []
        b = FirstBB(f)
        while b:
            bbs.append(b)
            b = NextBB(b)
        bid = {b: k for k, b in enumerate(bbs)}
        for b in bbs:
            x = FirstI(b)
            while x:
                ids[x] = nxt
                nxt += 1
                x = NextI(x)
        F.blocks = []
        for b in bbs:
            B = Block()
            B.id, B.insts = bid[b], []
            t = Term_(b)
            B.succs = [bid[Succ(t, j)] for j in range(NumSucc(t))] if t else []
            x = FirstI(b)
            while x:
                I = self._inst(x, ids, bid)
                if I is not None:
                    I.bb = B.id
                    B.insts.append(I)
                x = NextI(x)
            F.blocks.append(B)
        for B in F.blocks:
            B.preds = []
        for B in F.blocks:
            for s in B.succs:
                if B.id not in F.blocks[s].preds:
                    F.blocks[s].preds.append(B.id)
        return F

    def _inst(self, x, ids, bid):
        I = Inst()
        I.id = ids[x]
        I.op = OPC.get(Opcode(x), "op%d" % Opcode(x))
        I.ty = self.ty(TypeOf(x))
        I.x = None
        I.loc = None
        if I.op in ("call", "invoke"):
            cv = CalledVal(x)
            I.x = {"callee": self.operand(cv, ids)}
            if I.x["callee"][0] == "fn" and I.x["callee"][1].startswith("llvm.dbg."):
                return None
            I.ops = [self.operand(Operand(x, j), ids) for j in range(NumArgOps(x))]
            I.x["argty"] = [self.ty(TypeOf(Operand(x, j))) for j in range(NumArgOps(x))]
            I.x["noreturn"] = bool(GetCallAttr(x, 0xFFFFFFFF, self.kind("noreturn"))) or (
                ValueKind(cv) == VK_FN and self.has_attr(cv, "noreturn"))
            I.x["sret"] = NumArgOps(x) > 0 and bool(GetCallAttr(x, 1, self.kind("sret")))
            if I.op == "invoke":
                I.x["succs"] = [bid[Succ(x, 0)], bid[Succ(x, 1)]]
        elif I.op == "phi":
            I.ops = []
            I.x = [(bid[IncBB(x, j)], self.operand(IncVal(x, j), ids)) for j in range(NumIncoming(x))]
        elif I.op == "br":
            if IsCond(x):
                I.ops = [self.operand(Cond(x), ids)]
            else:
                I.ops = []
            I.x = [bid[Succ(x, j)] for j in range(NumSucc(x))]
        elif I.op == "switch":
            n = NumOps(x)
            I.ops = [self.operand(Operand(x, 0), ids)]
            cases = []
            for j in range(1, NumSucc(x)):
                cases.append((self.operand(Operand(x, 2 * j), ids), bid[Succ(x, j)]))
            I.x = {"default": bid[Succ(x, 0)], "cases": cases}
        else:
            I.ops = [self.operand(Operand(x, j), ids) for j in range(NumOps(x))]
            if I.op == "icmp":
                I.x = ICMP[ICmpPred(x)]
            elif I.op == "fcmp":
                I.x = FCMP[FCmpPred(x)]
            elif I.op == "gep":
                I.x = self._gepoff(x, ids)
            elif I.op == "alloca":
                I.x = self.ty(AllocTy(x))
            elif I.op in ("extractvalue", "insertvalue"):
                n = NumIdx(x)
                ip = Indices(x)
                I.x = [ip[j] for j in range(n)]
            elif I.op == "shufflevector":
                I.x = [MaskVal(x, j) for j in range(NumMask(x))]
            elif I.op == "store":
                I.x = self.ty(TypeOf(Operand(x, 0)))
        I.loc = self.loc(x)
        return I

    def global_init(self, name):
        g = FirstGlobal(self.m)
        while g:
            if vname(g) == name:
                ini = GlobalInit(g)
                if not ini:
                    return None
                return self.operand(ini, {}), self.ty(TypeOf(ini)), bool(IsGConst(g))
            g = NextGlobal(g)
        return None

    def close(self):
        DisposeModule(self.m)
        CtxDispose(self.ctx)


def _fp80(s):
    # 0xK + 20 hex digits (80 bits) : sign/exponent (16 bits) mantissa (64 bits explicit)
    if s.startswith("0xK"):
        v = int(s[3:], 16)
        sign = v >> 79
        e = (v >> 64) & 0x7FFF
        m = v & ((1 << 64) - 1)
        if m == 0:
            return 0.0
        from fractions import Fraction
        r = Fraction(m) * (Fraction(2) ** (e - 16383 - 63))
        return float(-r if sign else r)
    return float(s)

# LLVMValueKind enum of LLVM 18 (Core.h)
VKN = {}
for _k, _n in enumerate(["arg", "bb", "memuse", "memdef", "memphi", "fn", "alias", "ifunc", "gvar", "blockaddr",
                         "expr", "array", "struct", "vector", "undef", "aggzero", "dataarray", "datavector",
                         "int", "fp", "null", "tokennone", "mdval", "asm", "inst", "poison", "targetnone"]):
    VKN[_k] = {"dataarray": "data", "datavector": "data"}.get(_n, _n)
