"""Load LLVM bitcode through the LLVM-C API (ctypes) into small Python objects.

Nothing is executed: this is a reader for the typed program representation clang
produced.  Functions are parsed lazily.
"""
import ctypes as C
import ctypes.util

_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    for n in ("libLLVM-18.so.1", "libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM-18.so",
              "/usr/lib/llvm-18/lib/libLLVM.so.18.1"):
        try:
            _L = C.CDLL(n)
            break
        except OSError:
            continue
    if _L is None:
        raise RuntimeError("libLLVM-18 not found")
    P, U, I, S = C.c_void_p, C.c_uint, C.c_int, C.c_char_p
    sig = {
        "LLVMContextCreate": (P, []),
        "LLVMContextSetDiscardValueNames": (None, [P, I]),
        "LLVMCreateMemoryBufferWithContentsOfFile": (I, [S, C.POINTER(P), C.POINTER(S)]),
        "LLVMParseBitcodeInContext2": (I, [P, P, C.POINTER(P)]),
        "LLVMParseIRInContext": (I, [P, P, C.POINTER(P), C.POINTER(S)]),
        "LLVMGetModuleDataLayout": (P, [P]),
        "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
        "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
        "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]),
        "LLVMAliasGetAliasee": (P, [P]),
        "LLVMGetValueName2": (C.POINTER(C.c_char), [P, C.POINTER(C.c_size_t)]),
        "LLVMIsDeclaration": (I, [P]),
        "LLVMGetLinkage": (I, [P]),
        "LLVMIsGlobalConstant": (I, [P]),
        "LLVMGetInitializer": (P, [P]),
        "LLVMGlobalGetValueType": (P, [P]),
        "LLVMCountParams": (U, [P]), "LLVMGetParam": (P, [P, U]),
        "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
        "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
        "LLVMGetInstructionOpcode": (I, [P]),
        "LLVMGetNumOperands": (I, [P]), "LLVMGetOperand": (P, [P, U]),
        "LLVMTypeOf": (P, [P]),
        "LLVMGetTypeKind": (I, [P]),
        "LLVMGetIntTypeWidth": (U, [P]),
        "LLVMCountStructElementTypes": (U, [P]),
        "LLVMStructGetTypeAtIndex": (P, [P, U]),
        "LLVMGetElementType": (P, [P]),
        "LLVMGetArrayLength2": (C.c_uint64, [P]),
        "LLVMGetVectorSize": (U, [P]),
        "LLVMABISizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, U]),
        "LLVMTypeIsSized": (I, [P]),
        "LLVMGetValueKind": (I, [P]),
        "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
        "LLVMPrintValueToString": (C.c_void_p, [P]),
        "LLVMPrintTypeToString": (C.c_void_p, [P]),
        "LLVMDisposeMessage": (None, [P]),
        "LLVMGetICmpPredicate": (I, [P]),
        "LLVMGetConstOpcode": (I, [P]),
        "LLVMGetGEPSourceElementType": (P, [P]),
        "LLVMGetAllocatedType": (P, [P]),
        "LLVMGetCalledValue": (P, [P]),
        "LLVMGetCalledFunctionType": (P, [P]),
        "LLVMGetNumArgOperands": (U, [P]),
        "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]),
        "LLVMGetSuccessor": (P, [P, U]), "LLVMGetNumSuccessors": (U, [P]),
        "LLVMIsConditional": (I, [P]), "LLVMGetCondition": (P, [P]),
        "LLVMGetSwitchDefaultDest": (P, [P]),
        "LLVMCountIncoming": (U, [P]), "LLVMGetIncomingValue": (P, [P, U]),
        "LLVMGetIncomingBlock": (P, [P, U]),
        "LLVMGetNumIndices": (U, [P]), "LLVMGetIndices": (C.POINTER(U), [P]),
        "LLVMGetDebugLocLine": (U, [P]),
        "LLVMGetDebugLocFilename": (C.POINTER(C.c_char), [P, C.POINTER(U)]),
        "LLVMGetBasicBlockTerminator": (P, [P]),
        "LLVMBasicBlockAsValue": (P, [P]), "LLVMValueAsBasicBlock": (P, [P]),
        "LLVMIsConstantString": (I, [P]),
        "LLVMGetAsString": (C.POINTER(C.c_char), [P, C.POINTER(C.c_size_t)]),
        "LLVMGetElementAsConstant": (P, [P, U]),
        "LLVMGetAggregateElement": (P, [P, U]),
        "LLVMIsNull": (I, [P]),
        "LLVMGetEnumAttributeKindForName": (U, [S, C.c_size_t]),
        "LLVMGetEnumAttributeAtIndex": (P, [P, U, U]),
        "LLVMGetTypeAttributeValue": (P, [P]),
        "LLVMGetCallSiteEnumAttribute": (P, [P, U, U]),
        "LLVMIsAInstruction": (P, [P]),
        "LLVMGetAtomicRMWBinOp": (I, [P]),
        "LLVMGetSubprogram": (P, [P]),
        "LLVMDISubprogramGetLine": (U, [P]),
        "LLVMDIScopeGetFile": (P, [P]),
        "LLVMDIFileGetFilename": (C.POINTER(C.c_char), [P, C.POINTER(U)]),
        "LLVMIsInlineAsm": (I, [P]),
        "LLVMGetConstantPtrAuthPointer": None,
    }
    for n, s in sig.items():
        if s is None:
            continue
        try:
            f = getattr(_L, n)
        except AttributeError:
            continue
        f.restype, f.argtypes = s
    return _L


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv",
       15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi",
       35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 60: "addrspacecast",
       66: "fneg", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt",
        39: "sge", 40: "slt", 41: "sle"}

_demangle_cache = {}


def demangle(name):
    r = _demangle_cache.get(name)
    if r is None:
        r = name
        if name.startswith("_Z"):
            global _cxx
            try:
                _cxx
            except NameError:
                _cxx = C.CDLL("libstdc++.so.6")
                _cxx.__cxa_demangle.restype = C.c_void_p
                _cxx.__cxa_demangle.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
            st = C.c_int()
            p = _cxx.__cxa_demangle(name.encode(), None, None, C.byref(st))
            if p:
                r = C.string_at(p).decode()
        _demangle_cache[name] = r
    return r


class Type:
    __slots__ = ("kind", "width", "size", "elems", "offsets", "elem", "count", "ptr", "store")

    def __repr__(self):
        return self.kind if self.kind != "int" else "i%d" % self.width


class Reg:
    __slots__ = ("id",)

    def __init__(s, i):
        s.id = i

    def __repr__(s):
        return "%%%d" % s.id


class K:
    """constant operand: kind in int, null, undef, global, func, gep, agg, zero, other"""
    __slots__ = ("kind", "a", "b", "ty", "t")

    def __init__(s, kind, a=None, b=None, ty=None):
        s.kind, s.a, s.b, s.ty, s.t = kind, a, b, ty, None

    def __repr__(s):
        return "K(%s,%s,%s)" % (s.kind, s.a, s.b)


class Inst:
    __slots__ = ("op", "ty", "ops", "x", "id", "line", "file", "blk", "fn")

    def __repr__(s):
        return "%%%s = %s %s %s" % (s.id, s.op, s.ops, s.x)


class Block:
    __slots__ = ("idx", "insts", "succs", "live_in", "rpo", "is_header")


class Function:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.dem = demangle(name)
        self.is_decl = bool(mod.L.LLVMIsDeclaration(ref))
        self.linkage = mod.L.LLVMGetLinkage(ref)
        self._parsed = False
        self._nounwind = None

    @property
    def nounwind(self):
        if self._nounwind is None:
            L = self.mod.L
            k = L.LLVMGetEnumAttributeKindForName(b"nounwind", 8)
            self._nounwind = bool(L.LLVMGetEnumAttributeAtIndex(self.ref, 0xFFFFFFFF, k))
        return self._nounwind

    def attr(self, idx, name):
        L = self.mod.L
        k = L.LLVMGetEnumAttributeKindForName(name.encode(), len(name))
        return bool(L.LLVMGetEnumAttributeAtIndex(self.ref, idx, k))

    def decl_line(self):
        L = self.mod.L
        sp = L.LLVMGetSubprogram(self.ref)
        if not sp:
            return None
        f = L.LLVMDIScopeGetFile(sp)
        n = C.c_uint()
        fn = L.LLVMDIFileGetFilename(f, C.byref(n)) if f else None
        return (fn[:n.value].decode() if fn else "?", L.LLVMDISubprogramGetLine(sp))

    def _parse(self):
        if self._parsed:
            return
        self._parsed = True
        m, L = self.mod, self.mod.L
        self._args = []
        ids = {}
        nid = 0
        for i in range(L.LLVMCountParams(self.ref)):
            p = L.LLVMGetParam(self.ref, i)
            ids[p] = nid
            self._args.append((nid, m.type(L.LLVMTypeOf(p))))
            nid += 1
        blocks, brefs = [], {}
        b = L.LLVMGetFirstBasicBlock(self.ref)
        while b:
            blk = Block()
            blk.idx = len(blocks)
            blk.insts = []
            brefs[b] = blk.idx
            blocks.append((b, blk))
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ids[i] = nid
                nid += 1
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        self._nregs = nid
        for b, blk in blocks:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                blk.insts.append(self._inst(i, ids, brefs, blk.idx))
                i = L.LLVMGetNextInstruction(i)
            t = blk.insts[-1]
            blk.succs = t.x["succ"] if t.x and "succ" in t.x else []
        self._blocks = [b for _, b in blocks]
        self._analyse()

    @property
    def args(self):
        self._parse()
        return self._args

    @property
    def blocks(self):
        self._parse()
        return self._blocks

    @property
    def nregs(self):
        self._parse()
        return self._nregs

    def _inst(self, i, ids, brefs, bidx):
        m, L = self.mod, self.mod.L
        o = Inst()
        o.fn = self
        opc = L.LLVMGetInstructionOpcode(i)
        o.op = OPC.get(opc, "op%d" % opc)
        o.ty = m.type(L.LLVMTypeOf(i))
        o.id = ids[i]
        o.blk = bidx
        o.line = L.LLVMGetDebugLocLine(i)
        n = C.c_uint()
        f = L.LLVMGetDebugLocFilename(i, C.byref(n)) if o.line else None
        o.file = f[:n.value].decode() if f and n.value else None
        o.x = None
        val = lambda v: self._val(v, ids, brefs)
        nops = L.LLVMGetNumOperands(i)
        if o.op == "br":
            if L.LLVMIsConditional(i):
                o.ops = [val(L.LLVMGetCondition(i))]
                o.x = {"succ": [brefs[L.LLVMGetSuccessor(i, 0)], brefs[L.LLVMGetSuccessor(i, 1)]]}
            else:
                o.ops = []
                o.x = {"succ": [brefs[L.LLVMGetSuccessor(i, 0)]]}
        elif o.op == "switch":
            o.ops = [val(L.LLVMGetOperand(i, 0))]
            cases = []
            for k in range(2, nops, 2):
                cv = L.LLVMGetOperand(i, k)
                bb = brefs[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, k + 1))]
                cases.append((val(cv).a, bb))
            d = brefs[L.LLVMGetSwitchDefaultDest(i)]
            o.x = {"cases": cases, "default": d, "succ": [d] + [c[1] for c in cases]}
        elif o.op in ("call", "invoke"):
            cal = L.LLVMGetCalledValue(i)
            na = L.LLVMGetNumArgOperands(i)
            o.ops = [val(L.LLVMGetOperand(i, k)) for k in range(na)]
            o.x = {"callee": val(cal), "raw": i}
            if o.op == "invoke":
                o.x["succ"] = [brefs[L.LLVMGetNormalDest(i)], brefs[L.LLVMGetUnwindDest(i)]]
            # byval sizes
            kb = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
            bv = {}
            for k in range(na):
                a = L.LLVMGetCallSiteEnumAttribute(i, k + 1, kb)
                if a:
                    bv[k] = m.type(L.LLVMGetTypeAttributeValue(a)).size
            if bv:
                o.x["byval"] = bv
        elif o.op == "phi":
            o.ops = []
            o.x = {"inc": [(brefs[L.LLVMGetIncomingBlock(i, k)], val(L.LLVMGetIncomingValue(i, k)))
                           for k in range(L.LLVMCountIncoming(i))]}
        elif o.op == "alloca":
            o.ops = [val(L.LLVMGetOperand(i, 0))]
            o.x = {"ty": m.type(L.LLVMGetAllocatedType(i))}
        elif o.op == "gep":
            o.ops = [val(L.LLVMGetOperand(i, k)) for k in range(nops)]
            o.x = {"ty": m.type(L.LLVMGetGEPSourceElementType(i))}
        elif o.op == "icmp":
            o.ops = [val(L.LLVMGetOperand(i, k)) for k in range(2)]
            o.x = {"pred": PRED[L.LLVMGetICmpPredicate(i)]}
        elif o.op in ("extractvalue", "insertvalue"):
            o.ops = [val(L.LLVMGetOperand(i, k)) for k in range(nops)]
            ni = L.LLVMGetNumIndices(i)
            ix = L.LLVMGetIndices(i)
            o.x = {"idx": [ix[k] for k in range(ni)]}
        elif o.op == "landingpad":
            o.ops = []
        elif o.op == "ret":
            o.ops = [val(L.LLVMGetOperand(i, 0))] if nops else []
        elif o.op == "atomicrmw":
            o.ops = [val(L.LLVMGetOperand(i, k)) for k in range(nops)]
            o.x = {"bin": L.LLVMGetAtomicRMWBinOp(i)}
        else:
            o.ops = [val(L.LLVMGetOperand(i, k)) for k in range(nops)]
            if o.op == "resume" or o.op == "unreachable":
                o.x = {"succ": []}
        return o

    def _val(self, v, ids, brefs):
        if v in ids:
            return Reg(ids[v])
        return self.mod.const(v)

    def _analyse(self):
        bl = self._blocks
        n = len(bl)
        # RPO
        seen, order = set(), []
        stack = [(0, iter(bl[0].succs))]
        seen.add(0)
        onstack = {0}
        for b in bl:
            b.is_header = False
        while stack:
            b, it = stack[-1]
            for s in it:
                if s in onstack:
                    bl[s].is_header = True
                if s not in seen:
                    seen.add(s)
                    onstack.add(s)
                    stack.append((s, iter(bl[s].succs)))
                    break
            else:
                order.append(b)
                onstack.discard(b)
                stack.pop()
        order.reverse()
        for b in bl:
            b.rpo = n
        for k, b in enumerate(order):
            bl[b].rpo = k
        # liveness
        use, deff = [set() for _ in bl], [set() for _ in bl]
        phi_use = [dict() for _ in bl]
        for b in bl:
            for i in b.insts:
                if i.op == "phi":
                    for pb, v in i.x["inc"]:
                        if isinstance(v, Reg):
                            phi_use[b.idx].setdefault(pb, set()).add(v.id)
                else:
                    for o in i.ops:
                        if isinstance(o, Reg) and o.id not in deff[b.idx]:
                            use[b.idx].add(o.id)
                    if i.x and "callee" in i.x and isinstance(i.x["callee"], Reg):
                        c = i.x["callee"].id
                        if c not in deff[b.idx]:
                            use[b.idx].add(c)
                deff[b.idx].add(i.id)
        live_in = [set(use[i]) for i in range(n)]
        changed = True
        while changed:
            changed = False
            for b in reversed(order):
                out = set()
                for s in bl[b].succs:
                    out |= live_in[s]
                    out |= phi_use[s].get(b, set())
                li = use[b] | (out - deff[b])
                if li != live_in[b]:
                    live_in[b] = li
                    changed = True
        for b in bl:
            b.live_in = live_in[b.idx]


class Global:
    def __init__(self, mod, ref, name):
        self.mod, self.ref, self.name = mod, ref, name
        self.is_decl = bool(mod.L.LLVMIsDeclaration(ref))
        self.const = bool(mod.L.LLVMIsGlobalConstant(ref))
        self.linkage = mod.L.LLVMGetLinkage(ref)
        self.ty = mod.type(mod.L.LLVMGlobalGetValueType(ref))
        self._init = None

    @property
    def init(self):
        if self.is_decl:
            return None
        if self._init is None:
            self._init = self.mod.const(self.mod.L.LLVMGetInitializer(self.ref))
        return self._init


class Module:
    def __init__(self, path, ctx=None):
        L = self.L = _lib()
        self.path = path
        self.ctx = L.LLVMContextCreate()
        buf, msg = C.c_void_p(), C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read %s: %s" % (path, msg.value))
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError("cannot parse %s: %s" % (path, msg.value))
        self.ref = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self._types, self._consts = {}, {}
        self.funcs, self.globals, self.aliases = {}, {}, {}
        self._fref, self._gref = {}, {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            fn = Function(self, f, self._name(f))
            self.funcs[fn.name] = fn
            self._fref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            gl = Global(self, g, self._name(g))
            self.globals[gl.name] = gl
            self._gref[g] = gl
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            self.aliases[self._name(a)] = a
            a = L.LLVMGetNextGlobalAlias(a)

    def _name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return p[:n.value].decode()

    def type(self, t):
        r = self._types.get(t)
        if r is not None:
            return r
        L = self.L
        r = Type()
        self._types[t] = r
        k = L.LLVMGetTypeKind(t)
        r.width = r.size = r.store = 0
        r.elems = r.offsets = r.elem = None
        r.count = 0
        names = {0: "void", 1: "half", 2: "float", 3: "double", 4: "fp80", 7: "label", 8: "int",
                 9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}
        r.kind = names.get(k, "kind%d" % k)
        if r.kind == "int":
            r.width = L.LLVMGetIntTypeWidth(t)
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.store = (r.width + 7) // 8
        elif r.kind == "ptr":
            r.width, r.size, r.store = 64, 8, 8
        elif r.kind == "struct":
            if L.LLVMTypeIsSized(t):
                r.size = r.store = L.LLVMABISizeOfType(self.dl, t)
                n = L.LLVMCountStructElementTypes(t)
                r.elems = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
                r.offsets = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
        elif r.kind == "array":
            r.elem = self.type(L.LLVMGetElementType(t))
            r.count = L.LLVMGetArrayLength2(t)
            r.size = r.store = L.LLVMABISizeOfType(self.dl, t)
        elif r.kind == "vector":
            r.elem = self.type(L.LLVMGetElementType(t))
            r.count = L.LLVMGetVectorSize(t)
            r.size = r.store = L.LLVMABISizeOfType(self.dl, t)
        elif r.kind in ("float", "double", "fp80"):
            r.size = r.store = L.LLVMABISizeOfType(self.dl, t)
            r.width = r.size * 8
        return r

    def const(self, v):
        r = self._consts.get(v)
        if r is None:
            r = self._const(v)
            self._consts[v] = r
        return r

    def _const(self, v):
        L = self.L
        if v in self._fref:
            return K("func", self._fref[v].name, self)
        if v in self._gref:
            return K("global", self._gref[v].name, self)
        kind = L.LLVMGetValueKind(v)
        ty = self.type(L.LLVMTypeOf(v)) if L.LLVMTypeOf(v) else None
        # LLVMValueKind enum (LLVM 18)
        # 0 Argument,1 BasicBlock,2 MemUse,3 MemDef,4 MemPhi,5 Function,6 GlobalAlias,7 IFunc,
        # 8 GlobalVariable,9 BlockAddress,10 ConstantExpr,11 ConstantArray,12 ConstantStruct,
        # 13 ConstantVector,14 Undef,15 AggregateZero,16 DataArray,17 DataVector,18 Int,19 FP,
        # 20 PointerNull,21 TokenNone,22 MetadataAsValue,23 InlineAsm,24 Instruction,25 Poison,
        # 26 TargetNone
        if kind == 18:
            if ty.width <= 64:
                return K("int", L.LLVMConstIntGetZExtValue(v) & ((1 << ty.width) - 1), ty.width, ty)
            return K("int", self._bigint(v), ty.width, ty)
        if kind == 20:
            return K("null", ty=ty)
        if kind in (14, 25):
            return K("undef", ty=ty)
        if kind == 15:
            return K("zero", ty=ty)
        if kind == 6:
            return self.const(L.LLVMAliasGetAliasee(v))
        if kind in (11, 12, 13):
            n = L.LLVMGetNumOperands(v)
            return K("agg", [self.const(L.LLVMGetOperand(v, i)) for i in range(n)], ty=ty)
        if kind in (16, 17):
            if ty.elem.kind == "int" and ty.elem.width == 8:
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n))
                return K("bytes", p[:n.value], ty=ty)
            return K("agg", [self.const(L.LLVMGetElementAsConstant(v, i)) for i in range(ty.count)], ty=ty)
        if kind == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            if op == "gep":
                ety = self.type(L.LLVMGetGEPSourceElementType(v))
                off = self.gep_const(ety, [o.a if o.kind == "int" else None for o in ops[1:]],
                                     [o.b for o in ops[1:]])
                return K("gep", ops[0], off, ty)
            return K("expr", op, ops, ty)
        if kind == 23:
            return K("asm", ty=ty)
        if kind == 22:
            return K("meta", ty=ty)
        return K("other", kind, ty=ty)

    def _bigint(self, v):
        p = self.L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode()
        self.L.LLVMDisposeMessage(p)
        n = int(s.split()[-1])
        w = self.type(self.L.LLVMTypeOf(v)).width
        return n & ((1 << w) - 1)

    @staticmethod
    def gep_const(ty, idx, widths):
        def sg(i, w):
            return i - (1 << w) if i >> (w - 1) else i
        off = sg(idx[0], widths[0]) * ty.size
        cur = ty
        for i, w in zip(idx[1:], widths[1:]):
            if cur.kind == "struct":
                off += cur.offsets[i]
                cur = cur.elems[i]
            else:
                off += sg(i, w) * cur.elem.size
                cur = cur.elem
        return off

    def print_type(self, t):
        p = self.L.LLVMPrintTypeToString(t)
        s = C.string_at(p).decode()
        self.L.LLVMDisposeMessage(p)
        return s


class Program:
    """All loaded modules; resolves external symbols across them."""

    def __init__(self, paths):
        self.modules = []
        self.defs, self.gdefs = {}, {}
        self.by_dem = {}
        self.rest = None
        self.add(paths)

    def add(self, paths):
        new = [Module(p) for p in paths]
        self.modules += new
        for m in new:
            for n, f in m.funcs.items():
                if not f.is_decl:
                    self.by_dem.setdefault(f.dem, []).append(f)
                    if f.linkage not in (8, 9):  # internal, private
                        self.defs.setdefault(n, f)
            for n, a in m.aliases.items():
                k = m.const(m.L.LLVMAliasGetAliasee(a))
                if k.kind == "func" and not m.funcs[k.a].is_decl:
                    self.defs.setdefault(n, m.funcs[k.a])
                    self.by_dem.setdefault(demangle(n), []).append(m.funcs[k.a])
            for n, g in m.globals.items():
                if not g.is_decl and g.linkage not in (8, 9):
                    self.gdefs.setdefault(n, g)

    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and not f.is_decl:
            return f
        if f is None and name in mod.aliases:
            k = mod.const(mod.L.LLVMAliasGetAliasee(mod.aliases[name]))
            if k.kind == "func":
                return self.resolve(mod, k.a)
        return self.defs.get(name, f)

    def elsewhere(self, name):
        """a library function that the loaded sources only declare"""
        if name not in self.defs and self.rest and "3bnl" in name:
            rest, self.rest = self.rest, None
            self.add(rest())
        return self.defs.get(name)

    def resolve_global(self, mod, name):
        g = mod.globals.get(name)
        if g is not None and not g.is_decl:
            return g
        if name not in self.gdefs and self.rest and "3bnl" in name:
            rest, self.rest = self.rest, None
            self.add(rest())
        return self.gdefs.get(name, g)

    def find(self, pred):
        out = []
        for d, fs in self.by_dem.items():
            if pred(d):
                out.append(fs[0])
        return out
