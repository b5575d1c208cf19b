"""LLVM bitcode loader: walks a module through libLLVM's C API and turns each
function, on demand, into compact Python tuples for the dataflow engine."""
import ctypes as ct
import os, re

_cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1"]
_lib = None
for _c in _cands:
    if os.path.exists(_c):
        _lib = ct.CDLL(_c)
        break
if _lib is None:
    raise SystemExit("libLLVM-18 not found")

P = ct.c_void_p
_sigs = {
    "LLVMContextCreate": (P, []),
    "LLVMCreateMemoryBufferWithContentsOfFile": (ct.c_int, [ct.c_char_p, ct.POINTER(P), ct.POINTER(ct.c_char_p)]),
    "LLVMParseBitcodeInContext2": (ct.c_int, [P, P, ct.POINTER(P)]),
    "LLVMParseIRInContext": (ct.c_int, [P, P, ct.POINTER(P), ct.POINTER(ct.c_char_p)]),
    "LLVMGetModuleDataLayout": (P, [P]),
    "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
    "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
    "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]), "LLVMAliasGetAliasee": (P, [P]),
    "LLVMGetNamedFunction": (P, [P, ct.c_char_p]),
    "LLVMGetValueName2": (ct.c_void_p, [P, ct.POINTER(ct.c_size_t)]),
    "LLVMIsDeclaration": (ct.c_int, [P]),
    "LLVMCountParams": (ct.c_uint, [P]), "LLVMGetParam": (P, [P, ct.c_uint]),
    "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
    "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
    "LLVMGetInstructionOpcode": (ct.c_int, [P]),
    "LLVMGetNumOperands": (ct.c_int, [P]), "LLVMGetOperand": (P, [P, ct.c_uint]),
    "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (ct.c_int, [P]),
    "LLVMGetIntTypeWidth": (ct.c_uint, [P]),
    "LLVMGetElementType": (P, [P]), "LLVMStructGetTypeAtIndex": (P, [P, ct.c_uint]),
    "LLVMCountStructElementTypes": (ct.c_uint, [P]), "LLVMGetArrayLength": (ct.c_uint, [P]), "LLVMGetVectorSize": (ct.c_uint, [P]),
    "LLVMABISizeOfType": (ct.c_ulonglong, [P, P]), "LLVMStoreSizeOfType": (ct.c_ulonglong, [P, P]),
    "LLVMOffsetOfElement": (ct.c_ulonglong, [P, P, ct.c_uint]),
    "LLVMABIAlignmentOfType": (ct.c_uint, [P, P]),
    "LLVMGetAlignment": (ct.c_uint, [P]),
    "LLVMGetGEPSourceElementType": (P, [P]),
    "LLVMGetAllocatedType": (P, [P]),
    "LLVMGetICmpPredicate": (ct.c_int, [P]), "LLVMGetFCmpPredicate": (ct.c_int, [P]),
    "LLVMGetCalledValue": (P, [P]), "LLVMGetNumArgOperands": (ct.c_uint, [P]),
    "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]),
    "LLVMGetNumClauses": (ct.c_uint, [P]), "LLVMGetClause": (P, [P, ct.c_uint]), "LLVMIsCleanup": (ct.c_int, [P]),
    "LLVMGetNumIndices": (ct.c_uint, [P]), "LLVMGetIndices": (ct.POINTER(ct.c_uint), [P]),
    "LLVMGetAtomicRMWBinOp": (ct.c_int, [P]), "LLVMGetOrdering": (ct.c_int, [P]),
    "LLVMGetCmpXchgSuccessOrdering": (ct.c_int, [P]),
    "LLVMIsConditional": (ct.c_int, [P]), "LLVMGetSuccessor": (P, [P, ct.c_uint]), "LLVMGetNumSuccessors": (ct.c_uint, [P]),
    "LLVMCountIncoming": (ct.c_uint, [P]), "LLVMGetIncomingValue": (P, [P, ct.c_uint]), "LLVMGetIncomingBlock": (P, [P, ct.c_uint]),
    "LLVMGetSwitchDefaultDest": (P, [P]),
    "LLVMValueAsBasicBlock": (P, [P]),
    "LLVMIsAConstantInt": (P, [P]), "LLVMConstIntGetZExtValue": (ct.c_ulonglong, [P]), "LLVMConstIntGetSExtValue": (ct.c_longlong, [P]),
    "LLVMIsAConstantPointerNull": (P, [P]), "LLVMIsUndef": (ct.c_int, [P]), "LLVMIsPoison": (ct.c_int, [P]),
    "LLVMIsAConstantExpr": (P, [P]), "LLVMGetConstOpcode": (ct.c_int, [P]),
    "LLVMIsAFunction": (P, [P]), "LLVMIsAGlobalVariable": (P, [P]), "LLVMIsAGlobalAlias": (P, [P]),
    "LLVMIsAConstantAggregateZero": (P, [P]), "LLVMIsAConstantStruct": (P, [P]), "LLVMIsAConstantArray": (P, [P]), "LLVMIsAConstantVector": (P, [P]),
    "LLVMIsAConstantDataSequential": (P, [P]), "LLVMGetElementAsConstant": (P, [P, ct.c_uint]), "LLVMIsAConstantFP": (P, [P]),
    "LLVMGetAggregateElement": (P, [P, ct.c_uint]),
    "LLVMIsAInlineAsm": (P, [P]),
    "LLVMIsAArgument": (P, [P]), "LLVMIsAInstruction": (P, [P]),
    "LLVMGetInitializer": (P, [P]), "LLVMGlobalGetValueType": (P, [P]), "LLVMIsThreadLocal": (ct.c_int, [P]),
    "LLVMIsGlobalConstant": (ct.c_int, [P]),
    "LLVMGetDebugLocLine": (ct.c_uint, [P]), "LLVMGetDebugLocFilename": (ct.c_void_p, [P, ct.POINTER(ct.c_uint)]),
    "LLVMGetEnumAttributeKindForName": (ct.c_uint, [ct.c_char_p, ct.c_size_t]),
    "LLVMGetEnumAttributeAtIndex": (P, [P, ct.c_uint, ct.c_uint]),
    "LLVMGetTypeAttributeValue": (P, [P]),
    "LLVMGetCallSiteEnumAttribute": (P, [P, ct.c_uint, ct.c_uint]),
    "LLVMPrintValueToString": (ct.c_void_p, [P]), "LLVMPrintTypeToString": (ct.c_void_p, [P]),
    "LLVMGetInlineAsmAsmString": (ct.c_void_p, [P, ct.POINTER(ct.c_size_t)]),
    "LLVMGetOrdering": (ct.c_int, [P]),
    "LLVMGetMaskValue": (ct.c_int, [P, ct.c_uint]),
    "LLVMGetReturnType": (P, [P]),
    "LLVMGetCalledFunctionType": (P, [P]),
    "LLVMIsFunctionVarArg": (ct.c_int, [P]),
    "LLVMGetLinkage": (ct.c_int, [P]),
    "LLVMGetSection": (ct.c_char_p, [P]),
}
L = type("L", (), {})()
for _n, (_r, _a) in _sigs.items():
    try:
        _f = getattr(_lib, _n)
    except AttributeError:
        _f = None
        setattr(L, _n[4:], None)
        continue
    _f.restype = _r
    _f.argtypes = _a
    setattr(L, _n[4:], _f)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep",
       30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext",
       39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select",
       47: "userop1", 48: "userop2", 49: "vaarg", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue",
       54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int", 9: "function", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}
ORD = {0: "na", 1: "unordered", 2: "monotonic", 4: "acquire", 5: "release", 6: "acq_rel", 7: "seq_cst"}


def _str(p):
    return ct.cast(p, ct.c_char_p).value.decode("utf-8", "replace") if p else ""


class Type:
    __slots__ = ("kind", "size", "store", "bits", "elems", "offs", "elem", "n", "align")


class UNDEF_T:
    def __repr__(self):
        return "undef"

    def __deepcopy__(self, m):
        return self


UNDEF = UNDEF_T()


class GlobalRef:
    """address of a global (function or variable) plus constant offset"""
    __slots__ = ("name", "off")

    def __init__(self, name, off=0):
        self.name, self.off = name, off

    def __repr__(self):
        return "@%s+%d" % (self.name, self.off)


class Fn:
    __slots__ = ("name", "nparams", "blocks", "nregs", "byval", "decl", "live", "ptypes", "short", "sret", "line", "file")


class Module:
    def __init__(self, path):
        self.ctx = L.ContextCreate()
        buf = P()
        err = ct.c_char_p()
        if L.CreateMemoryBufferWithContentsOfFile(path.encode(), ct.byref(buf), ct.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        mod = P()
        if path.endswith(".ll"):
            if L.ParseIRInContext(self.ctx, buf, ct.byref(mod), ct.byref(err)):
                raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        elif L.ParseBitcodeInContext2(self.ctx, buf, ct.byref(mod)):
            raise RuntimeError("cannot parse %s" % path)
        self.mod = mod
        self.dl = L.GetModuleDataLayout(mod)
        self.fnptr, self.gv, self.alias = {}, {}, {}
        self._types = {}
        f = L.GetFirstFunction(mod)
        while f:
            self.fnptr[self.name(f)] = f
            f = L.GetNextFunction(f)
        g = L.GetFirstGlobal(mod)
        while g:
            self.gv[self.name(g)] = g
            g = L.GetNextGlobal(g)
        a = L.GetFirstGlobalAlias(mod)
        while a:
            self.alias[self.name(a)] = self.name(L.AliasGetAliasee(a))
            a = L.GetNextGlobalAlias(a)
        self.fns = {}
        self.byval_kind = L.GetEnumAttributeKindForName(b"byval", 5)
        self.sret_kind = L.GetEnumAttributeKindForName(b"sret", 4)

    def name(self, v):
        n = ct.c_size_t()
        p = L.GetValueName2(v, ct.byref(n))
        return ct.string_at(p, n.value).decode() if p else ""

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        r = Type()
        self._types[t] = r
        k = TK.get(L.GetTypeKind(t), "other")
        r.kind, r.bits, r.elems, r.offs, r.elem, r.n = k, 0, None, None, None, 0
        r.size = r.store = 0
        r.align = 1
        if k not in ("void", "label", "function", "metadata", "token", "other"):
            r.size = L.ABISizeOfType(self.dl, t)
            r.store = L.StoreSizeOfType(self.dl, t)
            r.align = L.ABIAlignmentOfType(self.dl, t)
        if k == "int":
            r.bits = L.GetIntTypeWidth(t)
        elif k == "ptr":
            r.bits = 64
        elif k == "struct":
            n = L.CountStructElementTypes(t)
            r.elems = [self.type(L.StructGetTypeAtIndex(t, i)) for i in range(n)]
            r.offs = [L.OffsetOfElement(self.dl, t, i) for i in range(n)]
            r.n = n
        elif k in ("array", "vector"):
            r.elem = self.type(L.GetElementType(t))
            r.n = L.GetArrayLength(t) if k == "array" else L.GetVectorSize(t)
        return r

    # ---- constants -> UNDEF | int | GlobalRef | tuple (aggregate) | ("lazy", ...)
    def const(self, v):
        if L.IsAConstantInt(v):
            w = L.GetIntTypeWidth(L.TypeOf(v))
            return L.ConstIntGetZExtValue(v) & ((1 << w) - 1) if w <= 64 else L.ConstIntGetZExtValue(v)
        if L.IsAConstantPointerNull(v):
            return 0
        if L.IsAFunction(v) or L.IsAGlobalVariable(v):
            return GlobalRef(self.name(v))
        if L.IsAGlobalAlias(v):
            return GlobalRef(self.alias[self.name(v)])
        if L.IsUndef(v):
            return UNDEF
        t = self.type(L.TypeOf(v))
        if L.IsAConstantAggregateZero(v):
            return self.zero(t)
        if t.kind in ("struct", "array", "vector") and not L.IsAConstantExpr(v):
            return tuple(self.const(L.GetAggregateElement(v, i)) for i in range(t.n))
        if L.IsAConstantExpr(v):
            op = OPC.get(L.GetConstOpcode(v))
            ops = [self.const(L.GetOperand(v, i)) for i in range(L.GetNumOperands(v))]
            if op == "gep":
                off = self.gep_const(v, ops)
                b = ops[0]
                if isinstance(b, GlobalRef):
                    return GlobalRef(b.name, b.off + off)
                if isinstance(b, int):
                    return b + off
            if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return ops[0]
            if op in ("add", "sub") and all(isinstance(o, int) for o in ops):
                return (ops[0] + ops[1]) if op == "add" else (ops[0] - ops[1])
            if op == "icmp" or op == "select":
                return UNDEF
            if op == "sub" and isinstance(ops[0], GlobalRef):
                return UNDEF
            if op == "trunc":
                return UNDEF
            return UNDEF
        if L.IsAConstantFP(v):
            return ("fp", _str(L.PrintValueToString(v)))
        return UNDEF

    def zero(self, t):
        if t.kind == "struct":
            return tuple(self.zero(e) for e in t.elems)
        if t.kind in ("array", "vector"):
            if t.n > 4096:
                return ("zeros",)
            return tuple(self.zero(t.elem) for _ in range(t.n))
        return 0

    def gep_const(self, v, ops):
        t = self.type(L.GetGEPSourceElementType(v))
        off = 0
        first = True
        for i in ops[1:]:
            bits = 64
            iv = i
            if iv >= 1 << 63:
                iv -= 1 << 64
            if first:
                off += iv * t.size
                first = False
            elif t.kind == "struct":
                off += t.offs[iv]
                t = t.elems[iv]
            else:
                # indices of 32 bit
                if iv >= 1 << 31 and iv < 1 << 32:
                    iv -= 1 << 32
                t = t.elem
                off += iv * t.size
        return off

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            p = self.fnptr.get(name)
            if p is None:
                return None
            f = self.fns[name] = self._load(name, p)
        return f

    def _load(self, name, p):
        F = Fn()
        F.name = name
        F.short = None
        F.decl = bool(L.IsDeclaration(p))
        n = L.CountParams(p)
        F.nparams = n
        F.byval = {}
        F.blocks = []
        F.nregs = n
        F.live = None
        F.file, F.line = None, 0
        F.ptypes = [self.type(L.TypeOf(L.GetParam(p, i))) for i in range(n)]
        for i in range(n):
            a = L.GetEnumAttributeAtIndex(p, i + 1, self.byval_kind)
            if a:
                F.byval[i] = self.type(L.GetTypeAttributeValue(a)).size
        if F.decl:
            return F
        ids, bbs = {}, {}
        for i in range(n):
            ids[L.GetParam(p, i)] = i
        nid = n
        b = L.GetFirstBasicBlock(p)
        order = []
        while b:
            bbs[b] = len(order)
            ins = []
            i = L.GetFirstInstruction(b)
            while i:
                ids[i] = nid
                nid += 1
                ins.append(i)
                i = L.GetNextInstruction(i)
            order.append(ins)
            b = L.GetNextBasicBlock(b)
        F.nregs = nid
        files = {}

        def operand(v):
            r = ids.get(v)
            if r is not None:
                return ("r", r)
            return ("c", self.const(v))

        for ins in order:
            out = []
            for i in ins:
                op = OPC.get(L.GetInstructionOpcode(i), "?")
                d = ids[i]
                line = L.GetDebugLocLine(i)
                fl = ""
                if line:
                    ln = ct.c_uint()
                    fp = L.GetDebugLocFilename(i, ct.byref(ln))
                    fl = ct.string_at(fp, ln.value).decode() if fp else ""
                loc = (fl, line)
                if F.file is None and fl:
                    F.file, F.line = fl, line
                ty = self.type(L.TypeOf(i))
                if op in ("call", "invoke"):
                    cv = L.GetCalledValue(i)
                    na = L.GetNumArgOperands(i)
                    if L.IsAInlineAsm(cv):
                        s = ""
                        if L.GetInlineAsmAsmString:
                            sz = ct.c_size_t()
                            s = ct.string_at(L.GetInlineAsmAsmString(cv, ct.byref(sz))).decode()
                        callee = ("asm", s)
                    else:
                        callee = operand(cv)
                    if callee[0] == "c" and isinstance(callee[1], GlobalRef) and callee[1].name.startswith("llvm.dbg"):
                        continue
                    args = []
                    for k in range(na):
                        o = L.GetOperand(i, k)
                        if TK.get(L.GetTypeKind(L.TypeOf(o))) == "metadata":
                            args.append(("c", UNDEF))
                        else:
                            args.append(operand(o))
                    byv = {}
                    for k in range(na):
                        a = L.GetCallSiteEnumAttribute(i, k + 1, self.byval_kind)
                        if a:
                            byv[k] = self.type(L.GetTypeAttributeValue(a)).size
                    nd = ud = None
                    if op == "invoke":
                        nd, ud = bbs[L.GetNormalDest(i)], bbs[L.GetUnwindDest(i)]
                    widths = tuple(self.type(L.TypeOf(L.GetOperand(i, k))).bits for k in range(na))
                    out.append((op, d, ty, callee, tuple(args), byv, nd, ud, loc, widths))
                    continue
                n_ops = L.GetNumOperands(i)
                if op == "br":
                    if L.IsConditional(i):
                        out.append(("condbr", d, operand(L.GetOperand(i, 0)), bbs[L.GetSuccessor(i, 0)], bbs[L.GetSuccessor(i, 1)], loc))
                    else:
                        out.append(("br", d, bbs[L.GetSuccessor(i, 0)], loc))
                    continue
                if op == "switch":
                    cases = []
                    for k in range(2, n_ops, 2):
                        cases.append((self.const(L.GetOperand(i, k)), bbs[L.ValueAsBasicBlock(L.GetOperand(i, k + 1))]))
                    w = self.type(L.TypeOf(L.GetOperand(i, 0))).bits
                    out.append(("switch", d, operand(L.GetOperand(i, 0)), tuple(cases), bbs[L.GetSwitchDefaultDest(i)], loc))
                    continue
                if op == "phi":
                    inc = tuple((bbs[L.GetIncomingBlock(i, k)], operand(L.GetIncomingValue(i, k))) for k in range(L.CountIncoming(i)))
                    out.append(("phi", d, dict(inc), loc))
                    continue
                if op == "landingpad":
                    cl = []
                    for k in range(L.GetNumClauses(i)):
                        c = L.GetClause(i, k)
                        t = self.type(L.TypeOf(c))
                        cl.append(("filter" if t.kind == "array" else "catch", self.const(c)))
                    out.append(("landingpad", d, tuple(cl), bool(L.IsCleanup(i)), loc))
                    continue
                ops = tuple(operand(L.GetOperand(i, k)) for k in range(n_ops))
                if op == "alloca":
                    at = self.type(L.GetAllocatedType(i))
                    out.append(("alloca", d, at.size, ops[0], at.align, loc, self.name(i)))
                elif op == "gep":
                    t = self.type(L.GetGEPSourceElementType(i))
                    parts, coff = [], 0
                    for k in range(1, n_ops):
                        o = ops[k]
                        kw = self.type(L.TypeOf(L.GetOperand(i, k))).bits
                        if k == 1:
                            sc = t.size
                        elif t.kind == "struct":
                            idx = o[1]
                            coff += t.offs[idx]
                            t = t.elems[idx]
                            continue
                        else:
                            t = t.elem
                            sc = t.size
                        if o[0] == "c" and isinstance(o[1], int):
                            iv = o[1]
                            if iv >= 1 << (kw - 1):
                                iv -= 1 << kw
                            coff += iv * sc
                        else:
                            parts.append((o, sc))
                    out.append(("gep", d, ops[0], coff, tuple(parts), loc))
                elif op == "load":
                    out.append(("load", d, ty, ops[0], loc, ORD.get(L.GetOrdering(i), "na")))
                elif op == "store":
                    vt = self.type(L.TypeOf(L.GetOperand(i, 0)))
                    out.append(("store", d, vt, ops[0], ops[1], loc, ORD.get(L.GetOrdering(i), "na")))
                elif op == "icmp":
                    w = self.type(L.TypeOf(L.GetOperand(i, 0))).bits
                    out.append(("icmp", d, PRED[L.GetICmpPredicate(i)], ops[0], ops[1], w, loc))
                elif op in ("extractvalue", "insertvalue"):
                    ni = L.GetNumIndices(i)
                    ix = L.GetIndices(i)
                    out.append((op, d, ops, tuple(ix[k] for k in range(ni)), ty, loc))
                elif op == "atomicrmw":
                    out.append((op, d, ty, RMW.get(L.GetAtomicRMWBinOp(i), "?"), ops[0], ops[1], loc, ORD.get(L.GetOrdering(i))))
                elif op == "cmpxchg":
                    vt = self.type(L.TypeOf(L.GetOperand(i, 1)))
                    out.append((op, d, vt, ops[0], ops[1], ops[2], loc, ORD.get(L.GetCmpXchgSuccessOrdering(i))))
                elif op in ("trunc", "zext", "sext"):
                    sw = self.type(L.TypeOf(L.GetOperand(i, 0))).bits
                    out.append((op, d, ops[0], sw, ty.bits, loc))
                elif op == "fence":
                    out.append(("fence", d, ORD.get(L.GetOrdering(i)), loc))
                else:
                    out.append((op, d, ops, ty, loc))
            F.blocks.append(out)
        return F


def uses_of(ins):
    """register numbers read by an instruction (phi excluded)"""
    op = ins[0]
    if op == "phi":
        return ()
    r = []

    def w(x):
        if type(x) is tuple:
            if len(x) == 2 and x[0] == "r" and type(x[1]) is int:
                r.append(x[1])
            else:
                for y in x:
                    if type(y) is tuple:
                        w(y)
    for x in ins[2:]:
        if type(x) is tuple:
            w(x)
    return r


TERMS = {"br", "condbr", "switch", "invoke", "ret", "unreachable", "resume"}


def succs(ins):
    op = ins[0]
    if op == "br":
        return [ins[2]]
    if op == "condbr":
        return [ins[3], ins[4]]
    if op == "switch":
        return [b for _, b in ins[3]] + [ins[4]]
    if op == "invoke":
        return [ins[6], ins[7]]
    return []


def liveness(F):
    """live-out register sets per (block, index) computed once per function"""
    nb = len(F.blocks)
    live_in = [set() for _ in range(nb)]
    phi_use = [dict() for _ in range(nb)]    # block -> pred -> regs
    for b, blk in enumerate(F.blocks):
        for ins in blk:
            if ins[0] == "phi":
                for pb, o in ins[2].items():
                    if o[0] == "r":
                        phi_use[b].setdefault(pb, set()).add(o[1])
    changed = True
    outs = [set() for _ in range(nb)]
    while changed:
        changed = False
        for b in range(nb - 1, -1, -1):
            blk = F.blocks[b]
            o = set()
            for s in succs(blk[-1]):
                o |= live_in[s]
                o |= phi_use[s].get(b, set())
            i = set(o)
            for ins in reversed(blk):
                i.discard(ins[1])
                i.update(uses_of(ins))
            if i != live_in[b] or o != outs[b]:
                changed = True
                live_in[b], outs[b] = i, o
    return live_in, outs


def live_after(F, b, idx):
    """registers live just before instruction idx of block b"""
    if F.live is None:
        F.live = (liveness(F), {})
    (li, lo), cache = F.live
    k = (b, idx)
    r = cache.get(k)
    if r is None:
        s = set(lo[b])
        blk = F.blocks[b]
        for ins in reversed(blk[idx:]):
            s.discard(ins[1])
            s.update(uses_of(ins))
        r = cache[k] = frozenset(s)
    return r
