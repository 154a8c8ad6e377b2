"""LLVM IR front end: builds bitcode for the current /repo sources (plus analysis contexts)
and loads it through libLLVM's C interface into plain Python structures."""
import ctypes, ctypes.util, os, subprocess, sys, tempfile, hashlib

_L = None
def lib():
    global _L
    if _L is None:
        err = None
        for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM.so", "libLLVM-18.so.1", "libLLVM-18.so"):
            try:
                _L = ctypes.CDLL(p); break
            except OSError as e:
                err = e
        else:
            raise RuntimeError("libLLVM not found: %s" % err)
        P, I, U, B, LL, SZ = ctypes.c_void_p, ctypes.c_int, ctypes.c_uint, ctypes.c_int, ctypes.c_longlong, ctypes.c_size_t
        def d(n, r, *a):
            f = getattr(_L, n); f.restype = r; f.argtypes = list(a)
        d("LLVMContextCreate", P); d("LLVMCreateMemoryBufferWithContentsOfFile", B, ctypes.c_char_p, P, P)
        d("LLVMParseIRInContext", B, P, P, P, P)
        for n in ("LLVMGetFirstFunction LLVMGetFirstGlobal LLVMGetFirstBasicBlock LLVMGetNextBasicBlock LLVMGetFirstInstruction "
                  "LLVMGetNextInstruction LLVMGetNextFunction LLVMGetNextGlobal LLVMTypeOf LLVMGetInitializer LLVMGlobalGetValueType "
                  "LLVMGetElementType LLVMGetReturnType LLVMGetCalledValue LLVMGetAllocatedType LLVMGetGEPSourceElementType "
                  "LLVMBasicBlockAsValue LLVMGetModuleDataLayout LLVMGetCalledFunctionType LLVMValueAsBasicBlock").split():
            d(n, P, P)
        for n in ("LLVMGetNumOperands LLVMGetInstructionOpcode LLVMGetValueKind LLVMGetTypeKind LLVMIsDeclaration LLVMCountParams "
                  "LLVMGetIntTypeWidth LLVMCountStructElementTypes LLVMGetArrayLength LLVMGetVectorSize LLVMGetICmpPredicate "
                  "LLVMCountIncoming LLVMGetDebugLocLine LLVMIsFunctionVarArg LLVMIsGlobalConstant LLVMIsThreadLocal LLVMGetNumSuccessors "
                  "LLVMGetConstOpcode LLVMIsNull LLVMIsUndef LLVMIsPoison LLVMGetNumIndices LLVMGetLinkage LLVMIsConditional").split():
            d(n, U, P)
        d("LLVMGetOperand", P, P, U); d("LLVMGetParam", P, P, U); d("LLVMGetIncomingValue", P, P, U); d("LLVMGetIncomingBlock", P, P, U)
        d("LLVMGetSuccessor", P, P, U); d("LLVMStructGetTypeAtIndex", P, P, U); d("LLVMGetAggregateElement", P, P, U)
        d("LLVMConstIntGetSExtValue", LL, P); d("LLVMConstIntGetZExtValue", ctypes.c_ulonglong, P)
        d("LLVMGetValueName2", P, P, P); d("LLVMGetAsString", P, P, P); d("LLVMIsConstantString", B, P)
        d("LLVMABISizeOfType", ctypes.c_ulonglong, P, P); d("LLVMStoreSizeOfType", ctypes.c_ulonglong, P, P); d("LLVMOffsetOfElement", ctypes.c_ulonglong, P, P, U)
        d("LLVMGetIndices", ctypes.POINTER(U), P); d("LLVMPrintValueToString", P, P); d("LLVMGetDebugLocFilename", P, P, P)
        d("LLVMGetEnumAttributeKindForName", U, ctypes.c_char_p, SZ); d("LLVMGetEnumAttributeAtIndex", P, P, U, U)
        d("LLVMGetTypeAttributeValue", P, P); d("LLVMGetCallSiteEnumAttribute", P, P, U, U); d("LLVMGetNumArgOperands", U, P)
        d("LLVMGetInlineAsmAsmString", P, P, P)
        d("LLVMGetGlobalParent", P, P)
    return _L

def _name(v):
    n = ctypes.c_size_t()
    s = lib().LLVMGetValueName2(v, ctypes.byref(n))
    return ctypes.string_at(s, n.value).decode() if n.value else ""

OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 8: "add", 10: "sub", 12: "mul", 14: "udiv", 15: "sdiv",
       17: "urem", 18: "srem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 66: "fneg", 68: "freeze", 69: "asc"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}

class Type:
    __slots__ = ("k", "w", "size", "fields", "elem", "n", "abi")
    # k: 'i' int, 'p' ptr, 'v' void, 's' struct, 'a' array, 'V' vector, 'o' other
    def __repr__(self): return "%s%s" % (self.k, self.w)

class Const:
    """A constant operand: value is python int, or tuple ('g', name, off), ('f', name), ('undef',), ('agg', [..]), ('null')"""
    __slots__ = ("v",)
    def __init__(s, v): s.v = v

class Instr:
    __slots__ = ("op", "dst", "args", "ty", "x", "line", "file", "uses", "idx", "bsplit")
    def __repr__(s): return "%s %s %s @%s:%s" % (s.op, s.dst, s.args, s.file, s.line)

class Block:
    __slots__ = ("id", "ins", "succ", "pred", "phis", "head", "livein", "loop")

class Func:
    __slots__ = ("name", "params", "byval", "blocks", "decl", "rty", "vararg", "heads", "backs", "file", "ptys", "nins", "defs", "module", "reach", "loopof")

class Module:
    def __init__(s, path):
        L = lib()
        s.path = path
        ctx = L.LLVMContextCreate()
        buf, mod, err = ctypes.c_void_p(), ctypes.c_void_p(), ctypes.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), ctypes.byref(buf), ctypes.byref(err)):
            raise RuntimeError("cannot read " + path)
        if L.LLVMParseIRInContext(ctx, buf, ctypes.byref(mod), ctypes.byref(err)):
            raise RuntimeError("cannot parse " + path + ": " + ctypes.string_at(err.value).decode())
        s.mod = mod.value
        s.td = L.LLVMGetModuleDataLayout(s.mod)
        s.types = {}
        s.funcs = {}
        s.globals = {}
        s._byval = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        s._sret = L.LLVMGetEnumAttributeKindForName(b"sret", 4)
        g = L.LLVMGetFirstGlobal(s.mod)
        s._anon = 0
        s._gname = {}
        while g:
            n = _name(g)
            if not n:
                s._anon += 1; n = "_anon%d" % s._anon
            s._gname[g] = n
            s.globals[n] = [g, None]
            g = L.LLVMGetNextGlobal(g)
        for n, e in list(s.globals.items()):
            g = e[0]
            ty = s.type(L.LLVMGlobalGetValueType(g))
            init = None
            if not L.LLVMIsDeclaration(g):
                cells = []
                s._flatten(L.LLVMGetInitializer(g), 0, cells)
                init = cells
            s.globals[n] = {"size": ty.size, "init": init, "const": bool(L.LLVMIsGlobalConstant(g)), "tls": bool(L.LLVMIsThreadLocal(g)), "name": n}
        f = L.LLVMGetFirstFunction(s.mod)
        while f:
            s._func(f)
            f = L.LLVMGetNextFunction(f)

    def type(s, t):
        r = s.types.get(t)
        if r: return r
        L = lib()
        r = Type(); s.types[t] = r
        k = L.LLVMGetTypeKind(t)
        r.fields = None; r.elem = None; r.n = 0; r.w = 0; r.size = 0
        if k == 0: r.k = "v"
        elif k == 8: r.k = "i"; r.w = L.LLVMGetIntTypeWidth(t); r.size = (r.w + 7) // 8
        elif k == 12: r.k = "p"; r.w = 64; r.size = 8
        elif k == 10:
            r.k = "s"
            n = L.LLVMCountStructElementTypes(t)
            try:
                r.size = L.LLVMABISizeOfType(s.td, t)
                r.fields = [(L.LLVMOffsetOfElement(s.td, t, i), s.type(L.LLVMStructGetTypeAtIndex(t, i))) for i in range(n)]
            except Exception:
                r.k = "o"
        elif k == 11:
            r.k = "a"; r.n = L.LLVMGetArrayLength(t); r.elem = s.type(L.LLVMGetElementType(t)); r.size = L.LLVMABISizeOfType(s.td, t)
        elif k == 13:
            r.k = "V"; r.n = L.LLVMGetVectorSize(t); r.elem = s.type(L.LLVMGetElementType(t)); r.size = L.LLVMABISizeOfType(s.td, t); r.w = r.size * 8
        elif k in (2, 3, 4): r.k = "F"; r.size = {2: 4, 3: 8, 4: 16}[k]; r.w = r.size * 8
        else: r.k = "o"
        return r

    def const(s, v):
        """constant -> python payload"""
        L = lib()
        k = L.LLVMGetValueKind(v)
        # kinds: 2 BasicBlock? use documented: Argument 0, BasicBlock 1, MemoryUse 2, MemoryDef 3, MemoryPhi 4, Function 5, GlobalAlias 6,
        # GlobalIFunc 7, GlobalVariable 8, BlockAddress 9, ConstantExpr 10, ConstantArray 11, ConstantStruct 12, ConstantVector 13, Undef 14,
        # AggregateZero 15, DataArray 16, DataVector 17, Int 18, FP 19, PointerNull 20, TokenNone 21, Metadata 22, InlineAsm 23, Instruction 24, Poison 25, TargetNone 26
        if k == 18:
            return L.LLVMConstIntGetSExtValue(v)
        if k == 20: return 0
        if k in (14, 25): return ("undef",)
        if k == 5: return ("f", _name(v))
        if k == 8: return ("g", s._gname[v], 0)
        if k == 6: return ("f", _name(v))
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                base = s.const(L.LLVMGetOperand(v, 0))
                off = s._constgep(v)
                if isinstance(base, tuple) and base[0] == "g": return ("g", base[1], base[2] + off)
                if isinstance(base, int): return base + off
            if op in ("bitcast", "inttoptr", "ptrtoint", "trunc", "zext", "sext", "asc"):
                return s.const(L.LLVMGetOperand(v, 0))
            if op in ("sub", "add"):
                a, b = s.const(L.LLVMGetOperand(v, 0)), s.const(L.LLVMGetOperand(v, 1))
                sg = 1 if op == "add" else -1
                if isinstance(a, int) and isinstance(b, int): return a + sg * b
                if isinstance(a, tuple) and a[0] == "g" and isinstance(b, int): return ("g", a[1], a[2] + sg * b)
            return ("unk",)
        if k in (11, 12, 13, 15, 16, 17):
            cells = []
            s._flatten(v, 0, cells)
            return ("agg", cells, s.type(L.LLVMTypeOf(v)))
        if k == 23:
            n = ctypes.c_size_t()
            p = L.LLVMGetInlineAsmAsmString(v, ctypes.byref(n))
            return ("asm", ctypes.string_at(p, n.value).decode())
        if k == 22: return ("meta",)
        return ("unk",)

    def _constgep(s, v):
        L = lib()
        t = s.type(L.LLVMGetGEPSourceElementType(v))
        off = 0
        n = L.LLVMGetNumOperands(v)
        for i in range(1, n):
            idx = L.LLVMConstIntGetSExtValue(L.LLVMGetOperand(v, i))
            if i == 1: off += idx * t.size
            elif t.k == "s": off += t.fields[idx][0]; t = t.fields[idx][1]
            else: t = t.elem; off += idx * t.size
        return off

    def _flatten(s, v, off, out):
        L = lib()
        k = L.LLVMGetValueKind(v)
        ty = s.type(L.LLVMTypeOf(v))
        if k == 15 or (k in (18, 20) and L.LLVMIsNull(v)):
            out.append((off, ty.size, "zero")); return
        if k in (14, 25): out.append((off, ty.size, "undef")); return
        if k in (16, 17) and ty.elem.size == 1:
            n = ctypes.c_size_t()
            p = L.LLVMGetAsString(v, ctypes.byref(n))
            out.append((off, n.value, ctypes.string_at(p, n.value))); return
        if k in (11, 12, 13, 16, 17):
            if ty.k == "s":
                pos = 0
                for i, (fo, ft) in enumerate(ty.fields):
                    if fo > pos: out.append((off + pos, fo - pos, "zero"))
                    s._flatten(L.LLVMGetAggregateElement(v, i), off + fo, out)
                    pos = fo + ft.size
                if pos < ty.size: out.append((off + pos, ty.size - pos, "zero"))
            else:
                for i in range(ty.n):
                    s._flatten(L.LLVMGetAggregateElement(v, i), off + i * ty.elem.size, out)
            return
        out.append((off, ty.size, s.const(v)))

    def _func(s, f):
        L = lib()
        F = Func(); F.name = _name(f)
        s.funcs[F.name] = F
        F.decl = bool(L.LLVMIsDeclaration(f))
        fty = L.LLVMGlobalGetValueType(f)
        F.vararg = bool(L.LLVMIsFunctionVarArg(fty))
        F.rty = s.type(L.LLVMGetReturnType(fty))
        F.blocks = []
        F.params = []; F.byval = []; F.ptys = []
        F.file = None
        np = L.LLVMCountParams(f)
        num = {}
        for i in range(np):
            pv = L.LLVMGetParam(f, i)
            num[pv] = len(num)
            F.params.append(num[pv])
            F.ptys.append(s.type(L.LLVMTypeOf(pv)))
            a = L.LLVMGetEnumAttributeAtIndex(f, i + 1, s._byval)
            F.byval.append(s.type(L.LLVMGetTypeAttributeValue(a)).size if a else 0)
        if F.decl: return
        bid = {}
        b = L.LLVMGetFirstBasicBlock(f)
        raw = []
        while b:
            B = Block(); B.id = len(raw); B.ins = []; B.succ = []; B.pred = []; B.phis = []; B.head = False; B.livein = None; B.loop = None
            bid[b] = B.id; raw.append((b, B))
            i = L.LLVMGetFirstInstruction(b)
            while i:
                num[i] = len(num)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        def opnd(v):
            k = L.LLVMGetValueKind(v)
            if k in (0, 24): return num[v]
            if k == 1: return ("bb",)
            return Const(s.const(v))
        fn = ctypes.c_uint()
        nins = 0
        for b, B in raw:
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = Instr()
                op = OPC.get(L.LLVMGetInstructionOpcode(i), "?%d" % L.LLVMGetInstructionOpcode(i))
                I.op = op; I.dst = num[i]; I.ty = s.type(L.LLVMTypeOf(i)); I.x = None; I.uses = None
                I.line = L.LLVMGetDebugLocLine(i)
                I.file = None
                if I.line:
                    p = L.LLVMGetDebugLocFilename(i, ctypes.byref(fn))
                    if p: I.file = os.path.basename(ctypes.string_at(p, fn.value).decode()); F.file = F.file or I.file
                n = L.LLVMGetNumOperands(i)
                skip = False
                if op == "phi":
                    I.args = [(bid[L.LLVMGetIncomingBlock(i, j)], opnd(L.LLVMGetIncomingValue(i, j))) for j in range(L.LLVMCountIncoming(i))]
                elif op == "br":
                    ns = L.LLVMGetNumSuccessors(i)
                    I.x = [bid[L.LLVMGetSuccessor(i, j)] for j in range(ns)]
                    I.args = [opnd(L.LLVMGetOperand(i, 0))] if ns == 2 else []
                elif op == "switch":
                    ns = L.LLVMGetNumSuccessors(i)
                    cases = []
                    for j in range(1, ns):
                        cases.append((L.LLVMConstIntGetSExtValue(L.LLVMGetOperand(i, 2 * j)), bid[L.LLVMGetSuccessor(i, j)]))
                    I.x = (bid[L.LLVMGetSuccessor(i, 0)], cases)
                    I.args = [opnd(L.LLVMGetOperand(i, 0))]
                    I.ty = s.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif op == "gep":
                    # list of (const offset) + (operand, stride)
                    t = s.type(L.LLVMGetGEPSourceElementType(i))
                    off = 0; var = []
                    for j in range(1, n):
                        o = L.LLVMGetOperand(i, j)
                        isc = L.LLVMGetValueKind(o) == 18
                        if j == 1: stride = t.size
                        elif t.k == "s":
                            idx = L.LLVMConstIntGetSExtValue(o)
                            off += t.fields[idx][0]; t = t.fields[idx][1]; continue
                        else: t = t.elem; stride = t.size
                        if isc: off += L.LLVMConstIntGetSExtValue(o) * stride
                        else: var.append((opnd(o), stride, s.type(L.LLVMTypeOf(o)).w))
                    I.args = [opnd(L.LLVMGetOperand(i, 0))]
                    I.x = (off, var)
                elif op == "alloca":
                    t = s.type(L.LLVMGetAllocatedType(i))
                    I.x = t.size
                    I.args = [opnd(L.LLVMGetOperand(i, 0))]
                elif op == "icmp":
                    I.x = PRED[L.LLVMGetICmpPredicate(i)]
                    I.args = [opnd(L.LLVMGetOperand(i, 0)), opnd(L.LLVMGetOperand(i, 1))]
                    I.ty = s.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                elif op == "call":
                    cv = L.LLVMGetCalledValue(i)
                    k = L.LLVMGetValueKind(cv)
                    callee = opnd(cv)
                    na = L.LLVMGetNumArgOperands(i)
                    if k == 5:
                        nm = _name(cv)
                        if nm.startswith("llvm.dbg.") or nm.startswith("llvm.lifetime."): skip = True
                    if not skip:
                        I.args = [opnd(L.LLVMGetOperand(i, j)) for j in range(na)]
                        bv = []
                        for j in range(na):
                            a = L.LLVMGetCallSiteEnumAttribute(i, j + 1, s._byval)
                            bv.append(s.type(L.LLVMGetTypeAttributeValue(a)).size if a else 0)
                        I.x = (callee, bv, [s.type(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(na)])
                elif op in ("extractvalue", "insertvalue"):
                    ni = L.LLVMGetNumIndices(i)
                    p = L.LLVMGetIndices(i)
                    I.x = [p[j] for j in range(ni)]
                    I.args = [opnd(L.LLVMGetOperand(i, j)) for j in range(n)]
                else:
                    I.args = [opnd(L.LLVMGetOperand(i, j)) for j in range(n)]
                    if op in ("trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr"):
                        I.x = s.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                    if op == "store":
                        I.ty = s.type(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
                if not skip:
                    if op == "phi": B.phis.append(I)
                    else: B.ins.append(I); I.idx = len(B.ins) - 1
                    nins += 1
                i = L.LLVMGetNextInstruction(i)
            F.blocks.append(B)
        for B in F.blocks:
            t = B.ins[-1]
            if t.op == "br": B.succ = list(t.x)
            elif t.op == "switch": B.succ = [t.x[0]] + [c[1] for c in t.x[1]]
            for x in set(B.succ): F.blocks[x].pred.append(B.id)
        F.nins = nins
        _analyse(F)

def regs_of(I):
    out = []
    for a in I.args:
        if isinstance(a, int): out.append(a)
    if I.op == "call" and isinstance(I.x[0], int): out.append(I.x[0])
    if I.op == "gep": out += [v for v, _, _ in I.x[1] if isinstance(v, int)]
    return out

def _analyse(F):
    # dominators (simple iterative), loop heads, liveness
    n = len(F.blocks)
    dom = [set(range(n)) for _ in range(n)]
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for B in F.blocks[1:]:
            ps = [dom[p] for p in B.pred]
            nd = set.intersection(*ps) | {B.id} if ps else {B.id}
            if nd != dom[B.id]: dom[B.id] = nd; ch = True
    # depth-first back edges cover irreducible loops as well
    color = [0] * n; heads = set(); backs = set()
    st = [(0, iter(F.blocks[0].succ))]; color[0] = 1
    while st:
        b, it = st[-1]
        for x in it:
            if color[x] == 0:
                color[x] = 1; st.append((x, iter(F.blocks[x].succ))); break
            elif color[x] == 1: heads.add(x); backs.add((b, x))
        else:
            color[b] = 2; st.pop()
    F.heads = heads; F.backs = backs
    for h in heads: F.blocks[h].head = True
    # natural loop bodies
    F.loopof = {}
    for (b, h) in backs:
        body = F.loopof.setdefault(h, {h})
        work = [b]
        while work:
            x = work.pop()
            if x in body: continue
            body.add(x); work += F.blocks[x].pred
    live = [set() for _ in range(n)]
    use = []; de = []
    for B in F.blocks:
        u = set(); d = set(i.dst for i in B.phis)
        for I in B.ins:
            for r in regs_of(I):
                if r not in d: u.add(r)
            d.add(I.dst)
        use.append(u); de.append(d)
    ch = True
    while ch:
        ch = False
        for B in reversed(F.blocks):
            out = set()
            for s in B.succ:
                S = F.blocks[s]
                out |= live[s] - {i.dst for i in S.phis}
                for ph in S.phis:
                    for pb, v in ph.args:
                        if pb == B.id and isinstance(v, int): out.add(v)
            ni = use[B.id] | (out - de[B.id])
            if ni != live[B.id]: live[B.id] = ni; ch = True
    for B in F.blocks: B.livein = frozenset(live[B.id] | {i.dst for i in B.phis})

# ------------------------------------------------------------------ building
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
CLANG = "/usr/bin/clang"
CFLAGS = ["-std=gnu2x", "-g", "-O0", "-Xclang", "-disable-O0-optnone", "-w", "-fno-builtin-printf", "-D__VERIF_SA__=1"]

class BuildError(Exception): pass

def lib_sources():
    out = []
    for d in ("src/reactor", "src/picohttpparser"):
        p = os.path.join(REPO, d)
        out += sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".c"))
    if not out: raise BuildError("no library sources found")
    return out

def build(ctxfile, outdir, extra=(), sources=None):
    """compile library + context to one linked, SROA'd bitcode file"""
    objs = []
    procs = []
    os.makedirs(outdir, exist_ok=True)
    srcs = list(sources if sources is not None else lib_sources())
    if ctxfile: srcs.append(ctxfile)
    for sfile in srcs:
        o = os.path.join(outdir, ("ctx_" if sfile == ctxfile else "") + os.path.basename(sfile)[:-2] + ".bc")
        cmd = [CLANG] + CFLAGS + list(extra) + ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "ctx"), "-c", "-emit-llvm", sfile, "-o", o]
        procs.append((sfile, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        objs.append(o)
    for sfile, pr in procs:
        out, _ = pr.communicate()
        if pr.returncode: raise BuildError("cannot compile %s:\n%s" % (sfile, out.decode(errors="replace")))
    linked = os.path.join(outdir, "linked.bc")
    subprocess.run(["/usr/bin/llvm-link"] + objs + ["-o", linked], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    final = os.path.join(outdir, "final.bc")
    subprocess.run(["/usr/bin/opt", "-passes=sroa", linked, "-o", final], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return final
