"""Compile /repo headers to LLVM IR (clang 18, nothing is executed), normalise the IR and
expose it to the analyses as plain Python objects through the LLVM-C API."""
import ctypes as C
import os, subprocess, tempfile, hashlib, sys, re, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "/usr/bin/clang++-18"

INCLUDES = [VERIF + "/stubs"] + [REPO + "/src/" + d + "/include" for d in
            ("core", "disruptor", "serialiser", "majordomo", "zmq", "client", "services", "rest")] + \
           [REPO + "/3rd_party/kainjow", REPO + "/3rd_party"]
BASEFLAGS = ["-std=c++23", "-D__cpp_concepts=202002L", "-Wno-builtin-macro-redefined", "-w",
             "-fno-discard-value-names", "-fno-strict-aliasing", "-fno-vectorize", "-fno-slp-vectorize",
             "-fno-delete-null-pointer-checks"]

class AnalysisBroken(Exception):
    """The analysis could not be carried out (tool failure, or an anchor vanished)."""

class CompileError(AnalysisBroken):
    pass

_lib = None
def lib():
    global _lib
    if _lib is None:
        for n in ("/usr/lib/llvm-18/lib/libLLVM.so.18.1", "/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
            if os.path.exists(n):
                _lib = C.CDLL(n); break
        else:
            raise AnalysisBroken("libLLVM 18 not found")
        P, S, U, I = C.c_void_p, C.c_char_p, C.c_uint, C.c_int
        def d(name, res, *args):
            f = getattr(_lib, name); f.restype = res; f.argtypes = list(args)
        d("LLVMContextCreate", P); d("LLVMContextDispose", None, P)
        d("LLVMCreateMemoryBufferWithContentsOfFile", I, S, P, P)
        d("LLVMParseIRInContext", I, P, P, P, P)
        d("LLVMPrintModuleToFile", I, P, S, P)
        d("LLVMDisposeModule", None, P)
        d("LLVMGetModuleDataLayout", P, P)
        d("LLVMRunPasses", P, P, S, P, P); d("LLVMCreatePassBuilderOptions", P)
        d("LLVMGetErrorMessage", S, P)
        d("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
        d("LLVMCreateEnumAttribute", P, P, U, C.c_uint64)
        d("LLVMAddAttributeAtIndex", None, P, U, P)
        d("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
        d("LLVMGetEnumAttributeAtIndex", P, P, U, U)
        d("LLVMGetCallSiteEnumAttribute", P, P, U, U)
        d("LLVMGetFirstFunction", P, P); d("LLVMGetNextFunction", P, P)
        d("LLVMGetFirstGlobal", P, P); d("LLVMGetNextGlobal", P, P)
        d("LLVMGetFirstBasicBlock", P, P); d("LLVMGetNextBasicBlock", P, P)
        d("LLVMGetFirstInstruction", P, P); d("LLVMGetNextInstruction", P, P)
        d("LLVMGetValueName2", P, P, P)
        d("LLVMGetBasicBlockName", S, P)
        d("LLVMCountParams", U, P); d("LLVMGetParam", P, P, U)
        d("LLVMIsDeclaration", I, P)
        d("LLVMGetInstructionOpcode", I, P)
        d("LLVMGetNumOperands", I, P); d("LLVMGetOperand", P, P, U)
        d("LLVMGetValueKind", I, P)
        d("LLVMTypeOf", P, P); d("LLVMGetTypeKind", I, P); d("LLVMGetIntTypeWidth", U, P)
        d("LLVMGetElementType", P, P); d("LLVMGetArrayLength2", C.c_uint64, P)
        d("LLVMGetVectorSize", U, P)
        d("LLVMStructGetTypeAtIndex", P, P, U); d("LLVMCountStructElementTypes", U, P)
        d("LLVMGetStructName", S, P)
        d("LLVMOffsetOfElement", C.c_ulonglong, P, P, U); d("LLVMABISizeOfType", C.c_ulonglong, P, P)
        d("LLVMConstIntGetZExtValue", C.c_ulonglong, P); d("LLVMConstIntGetSExtValue", C.c_longlong, P)
        d("LLVMGetICmpPredicate", I, P); d("LLVMGetFCmpPredicate", I, P)
        d("LLVMGetOrdering", I, P); d("LLVMGetCmpXchgSuccessOrdering", I, P); d("LLVMGetCmpXchgFailureOrdering", I, P)
        d("LLVMGetAtomicRMWBinOp", I, P); d("LLVMGetVolatile", I, P)
        d("LLVMGetCalledValue", P, P); d("LLVMGetNumArgOperands", U, P)
        d("LLVMGetNumSuccessors", U, P); d("LLVMGetSuccessor", P, P, U)
        d("LLVMCountIncoming", U, P); d("LLVMGetIncomingValue", P, P, U); d("LLVMGetIncomingBlock", P, P, U)
        d("LLVMGetGEPSourceElementType", P, P); d("LLVMGetAllocatedType", P, P)
        d("LLVMGetConstOpcode", I, P)
        d("LLVMGetNumIndices", U, P); d("LLVMGetIndices", P, P)
        d("LLVMGetDebugLocLine", U, P)
        d("LLVMInstructionGetDebugLoc", P, P)
        d("LLVMDILocationGetLine", U, P); d("LLVMDILocationGetScope", P, P); d("LLVMDILocationGetInlinedAt", P, P)
        d("LLVMDIScopeGetFile", P, P); d("LLVMDIFileGetFilename", P, P, P); d("LLVMDIFileGetDirectory", P, P, P)
        d("LLVMGetSubprogram", P, P); d("LLVMDISubprogramGetLine", U, P)
        d("LLVMGetInitializer", P, P); d("LLVMIsGlobalConstant", I, P)
        d("LLVMGetAggregateElement", P, P, U)
        d("LLVMIsConstantString", I, P); d("LLVMGetAsString", P, P, P)
        d("LLVMPrintValueToString", P, P); d("LLVMPrintTypeToString", P, P); d("LLVMDisposeMessage", None, P)
        d("LLVMHasPersonalityFn", I, P)
        d("LLVMIsCleanup", I, P); d("LLVMGetNumClauses", U, P); d("LLVMGetClause", P, P, U)
        d("LLVMGetReturnType", P, P); d("LLVMGlobalGetValueType", P, P)
        d("LLVMSetLinkage", None, P, I)
        d("LLVMConstRealGetDouble", C.c_double, P, P)
        d("LLVMSetInstructionCallConv", None, P, U)
        d("LLVMAliasGetAliasee", P, P)
        d("LLVMGetEnumAttributeValue", C.c_uint64, P)
        d("LLVMGetNUW", I, P); d("LLVMGetNSW", I, P)
    return _lib

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',
32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'va_arg',50:'extractelement',51:'insertelement',
52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',
59:'landingpad',61:'cleanupret',62:'catchret',63:'catchpad',64:'cleanuppad',65:'catchswitch'}
ICMP = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
ORD = {0:'na',1:'unordered',2:'monotonic',4:'acquire',5:'release',6:'acq_rel',7:'seq_cst'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin',11:'fadd',12:'fsub'}
TK = {0:'void',2:'float',3:'double',4:'x86_fp80',7:'label',8:'int',9:'func',10:'struct',11:'array',12:'ptr',13:'vector',14:'metadata',16:'token'}
VK = {0:'arg',1:'bb',5:'func',6:'alias',7:'ifunc',8:'global',9:'blockaddr',10:'constexpr',11:'carray',12:'cstruct',13:'cvec',14:'undef',15:'zeroinit',16:'cdataarray',17:'cdatavec',18:'int',19:'fp',20:'null',21:'none',22:'md',23:'asm',24:'inst',25:'poison'}

_cxxlib = None
_dem = {}
def demangle(n):
    if n in _dem: return _dem[n]
    global _cxxlib
    r = n
    if n.startswith("_Z"):
        if _cxxlib is None:
            _cxxlib = C.CDLL("libstdc++.so.6")
            _cxxlib.__cxa_demangle.restype = C.c_void_p
            _cxxlib.__cxa_demangle.argtypes = [C.c_char_p, C.c_void_p, C.c_void_p, C.c_void_p]
            _cxxlib.free = C.CDLL("libc.so.6").free; _cxxlib.free.argtypes = [C.c_void_p]
        L = lib()
        f = L["_ZN4llvm15itaniumDemangleESt17basic_string_viewIcSt11char_traitsIcEEb"]
        f.restype = C.c_void_p; f.argtypes = [C.c_size_t, C.c_char_p, C.c_bool]
        b = n.encode(); p = f(len(b), b, True)
        if p:
            r = C.string_at(p).decode(); _cxxlib.free(p)
        else: r = nested(n) or n
    _dem[n] = r
    return r

def nested(n):
    """enclosing scopes of a name the demangler gives up on (constrained template parameters); the function name itself may be missing"""
    m = re.match(r"_ZNK?", n)
    if not m: return None
    out = []; k = m.end()
    while k < len(n):
        m = re.match(r"\d+", n[k:])
        if not m: break
        l = int(m.group()); k += len(m.group()); out.append(n[k:k + l]); k += l
    return "::".join(out) + "::<unknown>()" if out else None

class Type:
    __slots__ = ("kind", "width", "size", "ref", "name", "elem", "count", "fields", "offsets")
    def __repr__(self): return f"{self.kind}{self.width if self.kind=='int' else ''}"

class Value:
    """constants, globals, arguments, instructions"""
    __slots__ = ("ref", "kind", "ty", "name", "value", "uses", "ops", "op", "block", "index", "pred", "ordering",
                 "ordering2", "rmw", "callee", "cases", "incoming", "gep", "alloc", "clauses", "cleanup", "idxs", "fn",
                 "asm", "_loc", "mod", "volatile", "nounwind_cs", "sret", "deref", "dbgref", "nsw", "nuw", "alloca_ty", "weak")
    def __init__(s): s.uses = []; s.ops = []; s.name = ""; s.value = None; s.callee = None; s._loc = None; s.op = None; s.volatile = False
    def __repr__(s):
        if s.kind == 'int': return f"{s.value}:i{s.ty.width}"
        if s.kind in ('func', 'global'): return "@" + s.name
        if s.kind == 'inst': return f"%{s.name or '?'}={s.op}[{s.block.label}.{s.index}]"
        return f"%{s.name}" if s.kind == 'arg' else f"<{s.kind}>"
    @property
    def is_const(s): return s.kind in ('int', 'null', 'undef', 'poison', 'zeroinit')
    def loc(s):
        """innermost /repo location, else innermost location"""
        if s._loc is None: s._loc = s.mod._locs(s)
        return s._loc
    def where(s):
        chain = s.loc()
        for f, l in chain:
            if f.startswith(REPO + "/"): return f"{f[len(REPO)+1:]}:{l}"
        return f"{chain[0][0]}:{chain[0][1]}" if chain else s.block.fn.dname

class Block:
    __slots__ = ("label", "fn", "insts", "succs", "preds", "idx")
    def __repr__(s): return f"bb:{s.label}"
    @property
    def term(s): return s.insts[-1]

class Function:
    def __init__(s): s.blocks = []; s.args = []; s._dom = None; s._pdom = None
    def __repr__(s): return s.dname
    def insts(s):
        for b in s.blocks: yield from b.insts
    @property
    def entry(s): return s.blocks[0]
    def where(s):
        for i in s.insts():
            for f, l in reversed(i.loc()):
                if f.startswith(REPO + "/"): return f"{f[len(REPO)+1:]}:{l}"
        return s.dname
    # dominators -------------------------------------------------------------------------
    def rpo(s):
        seen, out = set(), []
        st = [(s.blocks[0], iter(s.blocks[0].succs))]; seen.add(s.blocks[0])
        while st:
            b, it = st[-1]
            for n in it:
                if n not in seen:
                    seen.add(n); st.append((n, iter(n.succs))); break
            else:
                out.append(b); st.pop()
        return out[::-1]
    def doms(s):
        if s._dom is None:
            rpo = s.rpo(); allb = set(rpo)
            dom = {b: set(allb) for b in rpo}; dom[rpo[0]] = {rpo[0]}
            ch = True
            while ch:
                ch = False
                for b in rpo[1:]:
                    ps = [dom[p] for p in b.preds if p in dom]
                    n = set.intersection(*ps) | {b} if ps else {b}
                    if n != dom[b]: dom[b] = n; ch = True
            s._dom = dom
        return s._dom
    def dominates(s, a, b):
        """instruction a dominates instruction b"""
        if a.block is b.block: return a.index <= b.index
        return a.block in s.doms().get(b.block, ())
    def edge_dominates(s, src, dst, blk):
        """edge src->dst dominates block blk"""
        # remove the edge, check blk unreachable
        seen, st = {s.entry}, [s.entry]
        while st:
            b = st.pop()
            for n in b.succs:
                if b is src and n is dst: continue
                if n not in seen: seen.add(n); st.append(n)
        return blk not in seen

class Module:
    def __init__(self, path):
        L = lib()
        self.ctx = L.LLVMContextCreate()
        buf, msg, m = C.c_void_p(), C.c_void_p(), C.c_void_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)): raise AnalysisBroken("cannot read " + path)
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(msg)): raise AnalysisBroken("cannot parse " + path)
        self.m = m.value
        self.td = L.LLVMGetModuleDataLayout(self.m)
    # --- raw manipulation ------------------------------------------------------------
    def raw_functions(self):
        L = lib(); f = L.LLVMGetFirstFunction(self.m)
        while f:
            yield f
            f = L.LLVMGetNextFunction(f)
    def _name(self, ref):
        n = C.c_size_t(); p = lib().LLVMGetValueName2(ref, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ""
    def set_inline(self, policy):
        """policy(demangled, mangled) -> True (inline) / False (keep opaque)"""
        L = lib()
        ai = L.LLVMGetEnumAttributeKindForName(b"alwaysinline", 12)
        ni = L.LLVMGetEnumAttributeKindForName(b"noinline", 8)
        on = L.LLVMGetEnumAttributeKindForName(b"optnone", 7)
        FI = 0xFFFFFFFF
        for f in self.raw_functions():
            n = self._name(f); dn = demangle(n)
            L.LLVMRemoveEnumAttributeAtIndex(f, FI, on)
            if L.LLVMIsDeclaration(f): continue
            if policy(dn, n):
                L.LLVMRemoveEnumAttributeAtIndex(f, FI, ni)
                L.LLVMAddAttributeAtIndex(f, FI, L.LLVMCreateEnumAttribute(self.ctx, ai, 0))
            else:
                L.LLVMRemoveEnumAttributeAtIndex(f, FI, ai)
                L.LLVMAddAttributeAtIndex(f, FI, L.LLVMCreateEnumAttribute(self.ctx, ni, 0))
    def run(self, passes):
        L = lib()
        e = L.LLVMRunPasses(self.m, passes.encode(), None, L.LLVMCreatePassBuilderOptions())
        if e: raise AnalysisBroken("passes failed: " + str(L.LLVMGetErrorMessage(e)))
    def dump(self, path):
        msg = C.c_void_p(); lib().LLVMPrintModuleToFile(self.m, path.encode(), C.byref(msg))
    # --- extraction --------------------------------------------------------------------
    def load(self):
        L = lib()
        self._vals, self._types = {}, {}
        self.functions, self.globals = {}, {}
        self._loccache = {}
        for f in self.raw_functions():
            fn = Function(); fn.ref = f; fn.name = self._name(f); fn.dname = demangle(fn.name); fn.mod = self
            fn.is_decl = bool(L.LLVMIsDeclaration(f))
            nu = L.LLVMGetEnumAttributeKindForName(b"nounwind", 8)
            fn.nounwind = bool(L.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, nu))
            nr = L.LLVMGetEnumAttributeKindForName(b"noreturn", 8)
            fn.noreturn = bool(L.LLVMGetEnumAttributeAtIndex(f, 0xFFFFFFFF, nr))
            self.functions[fn.name] = fn
        for fn in self.functions.values():
            self._load_fn(fn)
        return self
    def type(self, ref):
        t = self._types.get(ref)
        if t is None:
            L = lib(); t = Type(); self._types[ref] = t
            t.kind = TK.get(L.LLVMGetTypeKind(ref), 'other'); t.ref = ref; t.width = 0; t.size = 0; t.name = None; t.fields = None; t.offsets = None; t.elem = None; t.count = 0
            if t.kind == 'int': t.width = L.LLVMGetIntTypeWidth(ref); t.size = (t.width + 7) // 8
            elif t.kind == 'ptr': t.size = 8; t.width = 64
            elif t.kind in ('float', 'double'): t.size = 4 if t.kind == 'float' else 8
            elif t.kind == 'struct':
                n = L.LLVMCountStructElementTypes(ref)
                t.fields = [self.type(L.LLVMStructGetTypeAtIndex(ref, i)) for i in range(n)]
                t.offsets = [L.LLVMOffsetOfElement(self.td, ref, i) for i in range(n)]
                s = L.LLVMGetStructName(ref); t.name = s.decode() if s else None
                t.size = L.LLVMABISizeOfType(self.td, ref)
            elif t.kind == 'array':
                t.elem = self.type(L.LLVMGetElementType(ref)); t.count = L.LLVMGetArrayLength2(ref); t.size = t.elem.size * t.count
            elif t.kind == 'vector':
                t.elem = self.type(L.LLVMGetElementType(ref)); t.count = L.LLVMGetVectorSize(ref); t.size = t.elem.size * t.count
        return t
    def value(self, ref):
        v = self._vals.get(ref)
        if v is not None: return v
        L = lib(); v = Value(); v.ref = ref; v.mod = self; self._vals[ref] = v
        v.kind = VK.get(L.LLVMGetValueKind(ref), 'other')
        v.ty = self.type(L.LLVMTypeOf(ref))
        if v.kind == 'int':
            v.value = L.LLVMConstIntGetSExtValue(ref) if v.ty.width <= 64 else None
        elif v.kind in ('func', 'global', 'arg', 'alias'):
            v.name = self._name(ref)
        elif v.kind == 'constexpr':
            v.op = OPC.get(L.LLVMGetConstOpcode(ref), '?')
            v.ops = [self.value(L.LLVMGetOperand(ref, i)) for i in range(L.LLVMGetNumOperands(ref))]
            if v.op == 'gep': v.gep = self._gep(ref, v.ops)
        elif v.kind == 'fp':
            li = C.c_int(); v.value = L.LLVMConstRealGetDouble(ref, C.byref(li))
        return v
    def _gep(self, ref, ops):
        L = lib(); cur = self.type(L.LLVMGetGEPSourceElementType(ref)); off = 0; var = []
        for k, ix in enumerate(ops[1:]):
            if k == 0: sz = cur.size
            elif cur.kind == 'struct':
                off += cur.offsets[ix.value]; cur = cur.fields[ix.value]; continue
            else: cur = cur.elem; sz = cur.size
            if ix.kind == 'int': off += ix.value * sz
            else: var.append((ix, sz))
        return (off, var)
    def _load_fn(self, fn):
        L = lib()
        fn.args = [self.value(L.LLVMGetParam(fn.ref, i)) for i in range(L.LLVMCountParams(fn.ref))]
        for i, a in enumerate(fn.args): a.index = i; a.fn = fn
        ft = L.LLVMGlobalGetValueType(fn.ref); fn.ret_ty = self.type(L.LLVMGetReturnType(ft))
        if fn.is_decl: return
        blocks = {}
        b = L.LLVMGetFirstBasicBlock(fn.ref); k = 0
        while b:
            bb = Block(); bb.fn = fn; bb.insts = []; bb.succs = []; bb.preds = []; bb.idx = k
            nm = L.LLVMGetBasicBlockName(b); bb.label = (nm.decode() if nm else "") or f"b{k}"
            blocks[b] = bb; fn.blocks.append(bb); k += 1
            b = L.LLVMGetNextBasicBlock(b)
        nu = L.LLVMGetEnumAttributeKindForName(b"nounwind", 8)
        k_sret = L.LLVMGetEnumAttributeKindForName(b"sret", 4)
        k_d1 = L.LLVMGetEnumAttributeKindForName(b"dereferenceable", 15)
        k_d2 = L.LLVMGetEnumAttributeKindForName(b"dereferenceable_or_null", 23)
        for braw, bb in blocks.items():
            i = L.LLVMGetFirstInstruction(braw); idx = 0
            while i:
                v = self.value(i); v.kind = 'inst'; v.block = bb; v.index = idx; v.fn = fn; idx += 1
                v.name = self._name(i); v.op = OPC.get(L.LLVMGetInstructionOpcode(i), '?'); bb.insts.append(v)
                op = v.op
                n = L.LLVMGetNumOperands(i)
                if op in ('br', 'switch', 'invoke', 'callbr', 'indirectbr'):
                    ns = L.LLVMGetNumSuccessors(i)
                    bb.succs = [blocks[L.LLVMGetSuccessor(i, j)] for j in range(ns)]
                if op == 'br':
                    v.ops = [self.value(L.LLVMGetOperand(i, 0))] if n == 3 else []
                elif op == 'switch':
                    v.ops = [self.value(L.LLVMGetOperand(i, 0))]
                    v.cases = [(self.value(L.LLVMGetOperand(i, 2 * j)).value, bb.succs[j]) for j in range(1, n // 2)]
                elif op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(i)
                    v.ops = [self.value(L.LLVMGetOperand(i, j)) for j in range(na)]
                    cv = L.LLVMGetCalledValue(i); c = self.value(cv)
                    v.callee = self.functions.get(c.name) if c.kind == 'func' else c
                    v.asm = c.kind == 'asm'
                    v.nounwind_cs = bool(L.LLVMGetCallSiteEnumAttribute(i, 0xFFFFFFFF, nu))
                    v.sret = na > 0 and bool(L.LLVMGetCallSiteEnumAttribute(i, 1, k_sret))
                    v.deref = {}
                    for j in range(na):
                        for kk in (k_d1, k_d2):
                            at = L.LLVMGetCallSiteEnumAttribute(i, j + 1, kk)
                            if at: v.deref[j] = L.LLVMGetEnumAttributeValue(at); break
                elif op == 'phi':
                    v.incoming = [(self.value(L.LLVMGetIncomingValue(i, j)), blocks[L.LLVMGetIncomingBlock(i, j)]) for j in range(L.LLVMCountIncoming(i))]
                    v.ops = [x for x, _ in v.incoming]
                else:
                    v.ops = [self.value(L.LLVMGetOperand(i, j)) for j in range(n)]
                if op == 'icmp': v.pred = ICMP[L.LLVMGetICmpPredicate(i)]
                elif op == 'fcmp': v.pred = L.LLVMGetFCmpPredicate(i)
                elif op in ('load', 'store'):
                    v.ordering = ORD[L.LLVMGetOrdering(i)]; v.volatile = bool(L.LLVMGetVolatile(i))
                elif op == 'fence': v.ordering = ORD[L.LLVMGetOrdering(i)]
                elif op == 'atomicrmw': v.ordering = ORD[L.LLVMGetOrdering(i)]; v.rmw = RMW.get(L.LLVMGetAtomicRMWBinOp(i))
                elif op == 'cmpxchg': v.ordering = ORD[L.LLVMGetCmpXchgSuccessOrdering(i)]; v.ordering2 = ORD[L.LLVMGetCmpXchgFailureOrdering(i)]; v.weak = bool(L.LLVMGetWeak(i))
                elif op == 'gep': v.gep = self._gep(i, v.ops)
                elif op == 'alloca':
                    v.alloca_ty = self.type(L.LLVMGetAllocatedType(i)); v.alloc = v.alloca_ty.size
                elif op in ('extractvalue', 'insertvalue'):
                    ni = L.LLVMGetNumIndices(i); p = C.cast(L.LLVMGetIndices(i), C.POINTER(C.c_uint)); v.idxs = [p[j] for j in range(ni)]
                elif op == 'landingpad':
                    v.cleanup = bool(L.LLVMIsCleanup(i)); v.clauses = [self.value(L.LLVMGetClause(i, j)) for j in range(L.LLVMGetNumClauses(i))]
                elif op in ('add', 'sub', 'mul', 'shl'):
                    v.nsw = bool(L.LLVMGetNSW(i)); v.nuw = bool(L.LLVMGetNUW(i))
                i = L.LLVMGetNextInstruction(i)
        for bb in fn.blocks:
            for s in dict.fromkeys(bb.succs): s.preds.append(bb)
        for v in fn.insts():
            for o in v.ops:
                o.uses.append(v)
    def _locs(self, v):
        L = lib(); out = []
        md = L.LLVMInstructionGetDebugLoc(v.ref)
        while md:
            c = self._loccache.get(md)
            if c is None:
                line = L.LLVMDILocationGetLine(md); sc = L.LLVMDILocationGetScope(md); f = L.LLVMDIScopeGetFile(sc) if sc else None
                fn = ""
                if f:
                    n = C.c_uint(); p = L.LLVMDIFileGetFilename(f, C.byref(n)); fn = C.string_at(p, n.value).decode()
                    if not fn.startswith("/"):
                        p = L.LLVMDIFileGetDirectory(f, C.byref(n)); fn = C.string_at(p, n.value).decode() + "/" + fn
                c = ((os.path.normpath(fn), line), L.LLVMDILocationGetInlinedAt(md)); self._loccache[md] = c
            out.append(c[0]); md = c[1]
        return out
    def vstr(self, v):
        p = lib().LLVMPrintValueToString(v.ref); s = C.string_at(p).decode(); lib().LLVMDisposeMessage(p); return s.strip()
    # constants ---------------------------------------------------------------------------
    def const_bytes(self, gname):
        """bytes of a constant global initialiser of integer array type (possibly wrapped in structs)"""
        L = lib()
        g = L.LLVMGetFirstGlobal(self.m)
        while g:
            if self._name(g) == gname: break
            g = L.LLVMGetNextGlobal(g)
        if not g: return None
        init = L.LLVMGetInitializer(g)
        if not init or not L.LLVMIsGlobalConstant(g): return None
        out = bytearray(); ok = self._flat(init, out)
        return bytes(out) if ok else None
    def vtable(self, gname):
        """offset -> function name of a constant table of pointers (virtual table)"""
        if not hasattr(self, '_vt'): self._vt = {}
        if gname in self._vt: return self._vt[gname]
        L = lib(); g = L.LLVMGetFirstGlobal(self.m)
        while g and self._name(g) != gname: g = L.LLVMGetNextGlobal(g)
        out = {}
        init = L.LLVMGetInitializer(g) if g else None
        def walk(ref, base):
            k = VK.get(L.LLVMGetValueKind(ref)); t = self.type(L.LLVMTypeOf(ref))
            if k == 'func': out[base] = self._name(ref)
            elif k == 'carray':
                for i in range(t.count): walk(L.LLVMGetAggregateElement(ref, i), base + 8 * i)
            elif k == 'cstruct':
                for i, f in enumerate(t.fields): walk(L.LLVMGetAggregateElement(ref, i), base + t.offsets[i])
        if init and L.LLVMIsGlobalConstant(g): walk(init, 0)
        self._vt[gname] = out
        return out
    def vtables(self, pat):
        L = lib(); g = L.LLVMGetFirstGlobal(self.m); out = []
        while g:
            n = self._name(g)
            if n.startswith('_ZTV') and re.search(pat, demangle(n)): out.append(n)
            g = L.LLVMGetNextGlobal(g)
        return out
    def _flat(self, ref, out):
        L = lib(); k = VK.get(L.LLVMGetValueKind(ref)); t = self.type(L.LLVMTypeOf(ref))
        if k == 'int':
            out += (L.LLVMConstIntGetZExtValue(ref) & ((1 << t.width) - 1)).to_bytes(t.size, 'little'); return True
        if k in ('zeroinit', 'null'): out += bytes(t.size); return True
        if k in ('undef', 'poison'): out += bytes(t.size); return True
        if k in ('cdataarray', 'carray', 'cdatavec', 'cvec'):
            for i in range(t.count):
                if not self._flat(L.LLVMGetAggregateElement(ref, i), out): return False
            return True
        if k == 'cstruct':
            base = len(out)
            for i, f in enumerate(t.fields):
                while len(out) < base + t.offsets[i]: out.append(0)
                if not self._flat(L.LLVMGetAggregateElement(ref, i), out): return False
            while len(out) < base + t.size: out.append(0)
            return True
        return False

# ------------------------------------------------------------------------------------------
def compile_bc(driver, out, extra=(), opt="-O1", debug="-gline-tables-only"):
    cmd = [CLANG] + BASEFLAGS + [opt, "-Xclang", "-disable-llvm-passes", debug, "-emit-llvm", "-c"] + \
          ["-I" + i for i in INCLUDES] + list(extra) + [driver, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        err = "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:2000]
        raise CompileError(f"{driver} does not compile against the current tree:\n{err or r.stderr[:2000]}")
    return out

SIMPLIFY = "function(sroa,early-cse<memssa>,instcombine,simplifycfg)"
def pipeline(rounds=2):
    # inline everything marked, then scalarise and simplify; no loop or vector transforms
    p = "always-inline,function(lower-expect,simplifycfg,sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg)"
    p += ",always-inline"
    for _ in range(rounds):
        p += ",function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,correlated-propagation,simplifycfg,gvn,dse,instcombine<no-verify-fixpoint>,simplifycfg,adce)"
    return p + ",globaldce"

class Unit:
    """one driver translation unit, compiled and normalised"""
    def __init__(self, driver, policy, extra=(), passes=None, workdir=None, opt="-O1", debug="-gline-tables-only"):
        self.driver = driver
        own = workdir is None
        wd = workdir or tempfile.mkdtemp(prefix="vf_")
        try:
            bc = os.path.join(wd, os.path.basename(driver) + ".bc")
            src = driver if os.path.isabs(driver) else os.path.join(VERIF, "drivers", driver)
            try: compile_bc(src, bc, extra, opt, debug)
            except CompileError:
                if "vf_algos.h" not in extra: raise
                compile_bc(src, bc, [x for j, x in enumerate(extra) if x != "vf_algos.h" and not (x == "-include" and extra[j + 1] == "vf_algos.h")], opt, debug)
            self.mod = Module(bc)
            self.mod.set_inline(policy)
            self.mod.run(passes or pipeline())
            if os.environ.get("VF_DUMP"): self.mod.dump(os.path.join(os.environ["VF_DUMP"], os.path.basename(driver) + ".ll"))
            self.mod.load()
        finally:
            if own: shutil.rmtree(wd, ignore_errors=True)
    def fn(self, name):
        f = self.mod.functions.get(name)
        if f is None or f.is_decl: raise AnalysisBroken(f"{self.driver}: entry {name} missing after compilation")
        return f
