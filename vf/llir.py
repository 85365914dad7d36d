"""Reads LLVM bitcode through the LLVM C API (ctypes) into light Python objects.

Nothing is dropped from the functions that are read: every instruction becomes
one Ins, every operand an Operand tuple.  Metadata other than line numbers is
not read."""
import ctypes as C, glob, os

_lib = None
def lib():
    global _lib
    if _lib is None:
        cands = ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so.1",
                 "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"] + glob.glob("/usr/lib/llvm-18/lib/libLLVM*.so*")
        for c in cands:
            if os.path.exists(c):
                _lib = C.CDLL(c); break
        else:
            raise RuntimeError("libLLVM-18 not found")
        P, U, I = C.c_void_p, C.c_uint, C.c_int
        def sig(name, res, *args):
            f = getattr(_lib, "LLVM" + name); f.restype = res; f.argtypes = list(args)
        for n in ("GetFirstFunction","GetFirstGlobal"): sig(n, P, P)
        for n in ("GetNextFunction","GetNextGlobal","GetFirstBasicBlock","GetNextBasicBlock","GetFirstInstruction",
                  "GetNextInstruction","TypeOf","GetInitializer","GetBasicBlockTerminator","GetCalledValue",
                  "GetCalledFunctionType","GetAllocatedType","GetGEPSourceElementType","GetElementType","GetReturnType",
                  "GlobalGetValueType","BasicBlockAsValue","ValueAsBasicBlock","GetSwitchDefaultDest","GetModuleContext","GetInstructionParent"):
            sig(n, P, P)
        for n in ("GetInstructionOpcode","GetTypeKind","GetValueKind","GetICmpPredicate","GetFCmpPredicate",
                  "GetNumOperands","GetConstOpcode","GetAtomicRMWBinOp","GetNSW","GetNUW","GetExact","IsDeclaration",
                  "GetNumSuccessors","CountIncoming","GetIntTypeWidth","CountStructElementTypes","IsGlobalConstant",
                  "IsThreadLocal","CountParams","CountParamTypes","GetNumIndices","IsPackedStruct","IsFunctionVarArg",
                  "GetArrayLength","GetDebugLocLine","GetLinkage","IsConstantString","IsOpaqueStruct","GetNumArgOperands","GetAlignment","GetOrdering"):
            sig(n, U, P)
        sig("GetArrayLength2", C.c_uint64, P)
        sig("GetVectorSize", U, P)
        sig("GetOperand", P, P, U); sig("GetParam", P, P, U); sig("GetSuccessor", P, P, U)
        sig("GetIncomingValue", P, P, U); sig("GetIncomingBlock", P, P, U)
        sig("StructGetTypeAtIndex", P, P, U)
        sig("GetParamTypes", None, P, C.POINTER(P))
        sig("GetIndices", C.POINTER(U), P)
        sig("GetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
        sig("GetStructName", C.c_char_p, P)
        sig("ConstIntGetZExtValue", C.c_uint64, P)
        sig("ConstRealGetDouble", C.c_double, P, C.POINTER(I))
        sig("GetAggregateElement", P, P, U)
        sig("GetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
        sig("GetDebugLocFilename", C.c_void_p, P, C.POINTER(U))
        sig("PrintValueToString", C.c_void_p, P)
        sig("PrintTypeToString", C.c_void_p, P)
        sig("DisposeMessage", None, C.c_void_p)
        sig("ContextCreate", P)
        sig("CreateMemoryBufferWithContentsOfFile", I, C.c_char_p, C.POINTER(P), C.POINTER(C.c_void_p))
        sig("ParseBitcodeInContext2", I, P, P, C.POINTER(P))
        sig("GetModuleDataLayout", P, P)
        sig("OffsetOfElement", C.c_uint64, P, P, U)
        sig("ABISizeOfType", C.c_uint64, P, P)
        sig("StoreSizeOfType", C.c_uint64, P, P)
        sig("GetEnumAttributeKindForName", U, C.c_char_p, C.c_size_t)
        sig("GetEnumAttributeAtIndex", P, P, U, U)
        sig("GetTypeAttributeValue", P, P)
    return _lib

OPC = {1:"ret",2:"br",3:"switch",4:"indirectbr",5:"invoke",7:"unreachable",67:"callbr",66:"fneg",8:"add",9:"fadd",10:"sub",
 11:"fsub",12:"mul",13:"fmul",14:"udiv",15:"sdiv",16:"fdiv",17:"urem",18:"srem",19:"frem",20:"shl",21:"lshr",22:"ashr",
 23:"and",24:"or",25:"xor",26:"alloca",27:"load",28:"store",29:"getelementptr",30:"trunc",31:"zext",32:"sext",33:"fptoui",
 34:"fptosi",35:"uitofp",36:"sitofp",37:"fptrunc",38:"fpext",39:"ptrtoint",40:"inttoptr",41:"bitcast",60:"addrspacecast",
 42:"icmp",43:"fcmp",44:"phi",45:"call",46:"select",47:"userop1",48:"userop2",49:"va_arg",50:"extractelement",
 51:"insertelement",52:"shufflevector",53:"extractvalue",54:"insertvalue",68:"freeze",55:"fence",56:"cmpxchg",
 57:"atomicrmw",58:"resume",59:"landingpad"}
ICMP = {32:"eq",33:"ne",34:"ugt",35:"uge",36:"ult",37:"ule",38:"sgt",39:"sge",40:"slt",41:"sle"}
FCMP = ["false","oeq","ogt","oge","olt","ole","one","ord","uno","ueq","ugt","uge","ult","ule","une","true"]
RMW = ["xchg","add","sub","and","nand","or","xor","max","min","umax","umin","fadd","fsub","fmax","fmin"]
# LLVMTypeKind
TK = {0:"void",1:"half",2:"float",3:"double",4:"x86_fp80",5:"fp128",6:"ppc_fp128",7:"label",8:"int",9:"function",10:"struct",
      11:"array",12:"pointer",13:"vector",14:"metadata",15:"x86_mmx",16:"token"}

class Ty:
    __slots__ = ("kind","bits","elems","offs","size","n","elem","name","ret","params","vararg","ptr")
    def __repr__(self):
        k = self.kind
        if k == "int": return "i%d" % self.bits
        if k == "struct": return "%" + (self.name or "{" + ",".join(map(repr, self.elems)) + "}")
        if k == "array": return "[%d x %r]" % (self.n, self.elem)
        return k

class Ins:
    __slots__ = ("op","id","ty","ops","x","line","file","bb","flags","atomic")
    def __repr__(self): return "%%%d = %s %r %r" % (self.id, self.op, self.ops, self.x)

class Block:
    __slots__ = ("idx","ins","name","succ")

class Fn:
    __slots__ = ("name","mod","ref","ty","params","byval","sret","decl","_blocks","nregs","dname","rpo","loops","headers","linkage")
    def __repr__(self): return "@" + self.name

class Global:
    __slots__ = ("name","ref","ty","const","decl","tls","align","_init","_has_init")

class Module:
    def __init__(self, path):
        L = lib()
        buf = C.c_void_p(); msg = C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        ctx = L.LLVMContextCreate(); m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m; self.dl = L.LLVMGetModuleDataLayout(m)
        self._ty = {}; self.fns = {}; self.globals = {}; self._fnref = {}; self._glref = {}
        k = lambda s: L.LLVMGetEnumAttributeKindForName(s, len(s))
        self.k_byval, self.k_sret = k(b"byval"), k(b"sret")
        f = L.LLVMGetFirstFunction(m)
        while f:
            fn = Fn(); fn.ref = f; fn.mod = self; fn.name = self._name(f); fn._blocks = None
            fn.decl = bool(L.LLVMIsDeclaration(f)); fn.dname = None; fn.rpo = None; fn.loops = None
            fn.ty = self.ty(L.LLVMGlobalGetValueType(f)); fn.linkage = L.LLVMGetLinkage(f)
            self.fns[fn.name] = fn; self._fnref[f] = fn
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            gl = Global(); gl.ref = g; gl.name = self._name(g); gl.ty = self.ty(L.LLVMGlobalGetValueType(g))
            gl.const = bool(L.LLVMIsGlobalConstant(g)); gl.decl = bool(L.LLVMIsDeclaration(g)); gl.tls = bool(L.LLVMIsThreadLocal(g)); gl.align = L.LLVMGetAlignment(g)
            gl._has_init = False
            self.globals[gl.name] = gl; self._glref[g] = gl
            g = L.LLVMGetNextGlobal(g)

    def _name(self, v):
        n = C.c_size_t(); p = lib().LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode("latin-1") if p else ""

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None: return r
        L = lib(); y = Ty(); self._ty[t] = y
        y.kind = TK[L.LLVMGetTypeKind(t)]; y.ptr = t; y.bits = 0; y.elems = None; y.size = None; y.name = None
        k = y.kind
        if k == "int": y.bits = L.LLVMGetIntTypeWidth(t)
        elif k == "struct":
            nm = L.LLVMGetStructName(t); y.name = nm.decode() if nm else None
            if not L.LLVMIsOpaqueStruct(t):
                y.n = L.LLVMCountStructElementTypes(t)
                y.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(y.n)]
                y.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(y.n)]
        elif k == "array":
            y.n = L.LLVMGetArrayLength(t) & 0xffffffff; y.elem = self.ty(L.LLVMGetElementType(t))
        elif k == "vector":
            y.n = L.LLVMGetVectorSize(t); y.elem = self.ty(L.LLVMGetElementType(t))
        elif k == "function":
            y.ret = self.ty(L.LLVMGetReturnType(t)); n = L.LLVMCountParamTypes(t)
            arr = (C.c_void_p * n)(); L.LLVMGetParamTypes(t, arr)
            y.params = [self.ty(a) for a in arr]; y.vararg = bool(L.LLVMIsFunctionVarArg(t))
        if k in ("int","float","double","x86_fp80","pointer","array","vector","fp128") or (k == "struct" and y.elems is not None):
            y.size = L.LLVMABISizeOfType(self.dl, t)
        return y

    # operands: ("r", id) register | ("i", val, ty) | ("null",) | ("undef", ty) | ("g", Global) | ("f", Fn)
    #   ("agg", [ops], ty) | ("zero", ty) | ("fp", float, ty) | ("ce", opname, ops, extra, ty) | ("str", bytes, ty) | ("md",) | ("asm",)
    def const(self, v):
        L = lib(); k = L.LLVMGetValueKind(v)
        # enum LLVMValueKind order in LLVM 18
        name = VK[k]
        if name == "Function": return ("f", self._fnref[v])
        if name == "GlobalVariable": return ("g", self._glref[v])
        if name == "GlobalAlias": return self.const(L.LLVMGetOperand(v, 0))
        t = self.ty(L.LLVMTypeOf(v))
        if name == "ConstantInt":
            if t.bits > 64:
                p = L.LLVMPrintValueToString(v); s = C.string_at(p).decode(); L.LLVMDisposeMessage(p)
                return ("i", int(s.split()[-1]) & ((1 << t.bits) - 1), t)
            return ("i", L.LLVMConstIntGetZExtValue(v) & ((1 << t.bits) - 1), t)
        if name == "ConstantFP":
            lose = C.c_int(); return ("fp", L.LLVMConstRealGetDouble(v, C.byref(lose)), t)
        if name == "ConstantPointerNull": return ("null",)
        if name in ("Undef", "Poison"): return ("undef", t)
        if name == "ConstantAggregateZero": return ("zero", t)
        if name in ("ConstantStruct", "ConstantArray", "ConstantVector"):
            return ("agg", [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))], t)
        if name in ("ConstantDataArray", "ConstantDataVector"):
            if t.elem.kind == "int" and t.elem.bits == 8:
                n = C.c_size_t(); p = L.LLVMGetAsString(v, C.byref(n)); return ("str", C.string_at(p, n.value), t)
            return ("agg", [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)], t)
        if name == "ConstantExpr":
            op = OPC[L.LLVMGetConstOpcode(v)]
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            x = None
            if op == "getelementptr": x = self.ty(L.LLVMGetGEPSourceElementType(v))
            return ("ce", op, ops, x, t)
        if name == "MetadataAsValue": return ("md",)
        if name == "InlineAsm": return ("asm",)
        if name == "Argument": raise KeyError("arg")
        return ("unsupported", name)

    def init(self, g):
        if not g._has_init:
            i = lib().LLVMGetInitializer(g.ref); g._init = self.const(i) if i else None; g._has_init = True
        return g._init

    def blocks(self, fn):
        if fn._blocks is not None: return fn._blocks
        L = lib(); regs = {}; n = L.LLVMCountParams(fn.ref)
        fn.params = []; fn.byval = {}; fn.sret = None
        for i in range(n):
            p = L.LLVMGetParam(fn.ref, i); regs[p] = i; fn.params.append(i)
            a = L.LLVMGetEnumAttributeAtIndex(fn.ref, i + 1, self.k_byval)
            if a: fn.byval[i] = self.ty(L.LLVMGetTypeAttributeValue(a))
            if L.LLVMGetEnumAttributeAtIndex(fn.ref, i + 1, self.k_sret): fn.sret = i
        nid = n; bbs = []; bbidx = {}
        b = L.LLVMGetFirstBasicBlock(fn.ref); raw = []
        while b:
            bbidx[b] = len(raw); ins = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ins.append(i); regs[i] = nid; nid += 1
                i = L.LLVMGetNextInstruction(i)
            raw.append((b, ins)); b = L.LLVMGetNextBasicBlock(b)
        fn.nregs = nid
        def opd(v):
            r = regs.get(v)
            return ("r", r) if r is not None else self.const(v)
        for bi, (b, ins) in enumerate(raw):
            B = Block(); B.idx = bi; B.ins = []; B.name = str(bi); B.succ = []
            for iv in ins:
                I = Ins(); I.atomic = False; I.op = OPC[L.LLVMGetInstructionOpcode(iv)]; I.id = regs[iv]; I.ty = self.ty(L.LLVMTypeOf(iv))
                I.x = None; I.flags = 0; I.line = L.LLVMGetDebugLocLine(iv); I.bb = bi; I.file = None
                op = I.op
                if op == "br":
                    ns = L.LLVMGetNumSuccessors(iv); I.x = [bbidx[L.LLVMGetSuccessor(iv, s)] for s in range(ns)]
                    I.ops = [opd(L.LLVMGetOperand(iv, 0))] if ns == 2 else []
                    B.succ = I.x
                elif op == "switch":
                    ns = L.LLVMGetNumSuccessors(iv); I.ops = [opd(L.LLVMGetOperand(iv, 0))]
                    d = bbidx[L.LLVMGetSwitchDefaultDest(iv)]
                    cases = []
                    no = L.LLVMGetNumOperands(iv)
                    for c in range(2, no, 2):
                        cases.append((self.const(L.LLVMGetOperand(iv, c)), bbidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(iv, c + 1))]))
                    I.x = (d, cases); B.succ = list(dict.fromkeys([d] + [t for _, t in cases]))
                elif op == "phi":
                    nn = L.LLVMCountIncoming(iv)
                    I.ops = []; I.x = [(bbidx[L.LLVMGetIncomingBlock(iv, q)], opd(L.LLVMGetIncomingValue(iv, q))) for q in range(nn)]
                elif op in ("call", "invoke"):
                    na = L.LLVMGetNumArgOperands(iv)
                    I.ops = [opd(L.LLVMGetOperand(iv, q)) for q in range(na)]
                    I.x = (opd(L.LLVMGetCalledValue(iv)), self.ty(L.LLVMGetCalledFunctionType(iv)))
                else:
                    I.ops = [opd(L.LLVMGetOperand(iv, q)) for q in range(L.LLVMGetNumOperands(iv))]
                    if op in ("load", "store"): I.atomic = L.LLVMGetOrdering(iv) != 0
                    if op == "alloca": I.x = self.ty(L.LLVMGetAllocatedType(iv)); I.flags = L.LLVMGetAlignment(iv)
                    elif op == "getelementptr": I.x = self.ty(L.LLVMGetGEPSourceElementType(iv))
                    elif op == "icmp": I.x = ICMP[L.LLVMGetICmpPredicate(iv)]
                    elif op == "fcmp": I.x = FCMP[L.LLVMGetFCmpPredicate(iv)]
                    elif op in ("add","sub","mul","shl"): I.flags = (1 if L.LLVMGetNSW(iv) else 0) | (2 if L.LLVMGetNUW(iv) else 0)
                    elif op in ("extractvalue","insertvalue"):
                        ni = L.LLVMGetNumIndices(iv); p = L.LLVMGetIndices(iv); I.x = [p[q] for q in range(ni)]
                    elif op == "atomicrmw": I.x = RMW[L.LLVMGetAtomicRMWBinOp(iv)]
                    elif op == "store": I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(iv, 0)))
                    elif op in ("trunc","zext","sext","fptoui","fptosi","uitofp","sitofp","fptrunc","fpext","bitcast","ptrtoint","inttoptr","freeze"):
                        I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(iv, 0)))
                    elif op in ("cmpxchg",): I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(iv, 1)))
                    elif op == "fneg": pass
                if op == "icmp":
                    I.flags = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(iv, 0)))
                B.ins.append(I)
            bbs.append(B)
        fn._blocks = bbs
        self._analyse(fn)
        return bbs

    def _analyse(self, fn):
        bbs = fn._blocks; n = len(bbs); order = []; state = [0] * n; back = []
        if not n: fn.rpo = []; fn.loops = {}; return
        stack = [(0, iter(bbs[0].succ))]; state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state[s] == 0:
                    state[s] = 1; stack.append((s, iter(bbs[s].succ))); break
                elif state[s] == 1: back.append((b, s))
            else:
                state[b] = 2; order.append(b); stack.pop()
        order.reverse(); fn.rpo = [0] * n
        for i, b in enumerate(order): fn.rpo[b] = i
        preds = [[] for _ in range(n)]
        for b in range(n):
            for s in bbs[b].succ: preds[s].append(b)
        loops = {}
        for src, h in back:
            body = loops.setdefault(h, {h}); work = [src]
            while work:
                x = work.pop()
                if x in body: continue
                body.add(x); work.extend(preds[x])
        fn.loops = loops
        # Order blocks so that every loop's blocks come before the blocks after the loop:
        # process states by (rpo with loop exits pushed behind). A simple stable fix: key = rpo, but
        # blocks outside a loop never precede blocks inside it once the header is reached.
        changed = True
        seq = order[:]
        # hoist loop bodies to be contiguous after their header (innermost last)
        for h, body in sorted(loops.items(), key=lambda kv: -len(kv[1])):
            inl = [b for b in seq if b in body]; pos = seq.index(inl[0])
            rest = [b for b in seq if b not in body]
            k = sum(1 for b in seq[:pos] if b not in body)
            seq = rest[:k] + inl + rest[k:]
        for i, b in enumerate(seq): fn.rpo[b] = i

VK = ["Argument","BasicBlock","MemoryUse","MemoryDef","MemoryPhi","Function","GlobalAlias","GlobalIFunc","GlobalVariable",
      "BlockAddress","ConstantExpr","ConstantArray","ConstantStruct","ConstantVector","Undef","ConstantAggregateZero",
      "ConstantDataArray","ConstantDataVector","ConstantInt","ConstantFP","ConstantPointerNull","ConstantTokenNone",
      "MetadataAsValue","InlineAsm","Instruction","Poison","ConstantTargetNone"]

_dem = None
_demcache = {}
def demangle(name):
    r = _demcache.get(name)
    if r is not None: return r
    global _dem
    if _dem is None:
        l = C.CDLL("libstdc++.so.6"); _dem = l.__cxa_demangle; _dem.restype = C.c_void_p
        _dem.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.POINTER(C.c_int)]
    st = C.c_int(); p = _dem(name.encode(), None, None, C.byref(st))
    r = C.string_at(p).decode("latin-1") if p and st.value == 0 else name
    _demcache[name] = r
    return r
