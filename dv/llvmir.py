"""Loads LLVM IR (emitted by clang from the real sources) into plain Python objects.

The text is parsed by LLVM itself (libLLVM through its C interface); nothing here
interprets C.  Struct field names come from the debug information in the same file.
"""
import ctypes as C
import re

_LIB = None


def _lib():
    global _LIB
    if _LIB is None:
        for name in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so.1", "libLLVM-18.so",
                     "/usr/lib/llvm-18/lib/libLLVM.so"):
            try:
                _LIB = C.CDLL(name)
                break
            except OSError:
                continue
        else:
            raise RuntimeError("libLLVM-18 not found")
        L = _LIB
        vp = C.c_void_p
        for f in """LLVMContextCreate LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstBasicBlock
        LLVMGetNextBasicBlock LLVMGetFirstInstruction LLVMGetNextInstruction LLVMTypeOf LLVMGetOperand
        LLVMGetGEPSourceElementType LLVMGetAllocatedType LLVMGetCalledValue LLVMGetSuccessor LLVMGetCondition
        LLVMGetIncomingValue LLVMGetIncomingBlock LLVMGetModuleDataLayout LLVMGetFirstGlobal LLVMGetNextGlobal
        LLVMGetInitializer LLVMGlobalGetValueType LLVMGetElementType LLVMStructGetTypeAtIndex LLVMGetIndices
        LLVMGetParam LLVMBasicBlockAsValue LLVMGetCalledFunctionType LLVMGetReturnType LLVMIsAInlineAsm
        LLVMGetTypeContext LLVMInstructionGetDebugLoc LLVMGetSwitchDefaultDest LLVMValueAsBasicBlock
        LLVMGetAggregateElement LLVMGetEntryBasicBlock LLVMGetFirstParam LLVMGetNextParam LLVMIsAFunction
        LLVMIsAGlobalVariable LLVMIsAConstantInt LLVMIsAConstantPointerNull LLVMIsAUndefValue
        LLVMIsAConstantExpr LLVMIsAConstantAggregateZero LLVMIsAPoisonValue LLVMIsAConstantDataSequential
        LLVMIsAConstantStruct LLVMIsAConstantArray LLVMIsAInstruction LLVMIsAArgument LLVMGetInstructionParent
        LLVMDILocationGetScope LLVMDIScopeGetFile LLVMIsAGlobalAlias LLVMDILocationGetInlinedAt
        LLVMIsAConstantFP""".split():
            fn = getattr(L, f)
            fn.restype = vp
            fn.argtypes = None
        L.LLVMGetValueName2.restype = C.c_char_p
        L.LLVMGetValueName2.argtypes = [vp, C.POINTER(C.c_size_t)]
        L.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
        L.LLVMConstIntGetZExtValue.argtypes = [vp]
        L.LLVMABISizeOfType.restype = C.c_ulonglong
        L.LLVMABISizeOfType.argtypes = [vp, vp]
        L.LLVMStoreSizeOfType.restype = C.c_ulonglong
        L.LLVMStoreSizeOfType.argtypes = [vp, vp]
        L.LLVMOffsetOfElement.restype = C.c_ulonglong
        L.LLVMOffsetOfElement.argtypes = [vp, vp, C.c_uint]
        L.LLVMPrintValueToString.restype = vp
        L.LLVMDIFileGetFilename.restype = C.c_char_p
        L.LLVMGetStructName.restype = C.c_char_p
        L.LLVMGetArrayLength.restype = C.c_uint
        L.LLVMGetAsString.restype = vp
    return _LIB


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr',
       66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv',
       16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or',
       25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint',
       40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector',
       53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
RMW = {0: 'xchg', 1: 'add', 2: 'sub', 3: 'and', 4: 'nand', 5: 'or', 6: 'xor', 7: 'max', 8: 'min', 9: 'umax',
       10: 'umin'}


class Ins:
    __slots__ = ("op", "res", "ty", "ops", "x", "line", "name", "idx")

    def __init__(self, op):
        self.op = op
        self.res = None
        self.ty = None
        self.ops = ()
        self.x = None
        self.line = 0
        self.name = ""

    def __repr__(self):
        return f"<{self.op} res={self.res} ty={self.ty} ops={self.ops} x={self.x} line={self.line}>"


class Block:
    __slots__ = ("id", "name", "ins", "succ")


class Func:
    def __init__(self):
        self.name = None
        self.module = None
        self.internal = False
        self.params = []
        self.param_names = []
        self.param_tys = []
        self.ret_ty = None
        self.blocks = []
        self._loops = None

    @property
    def qual(self):
        return f"{self.module.name}:{self.name}"

    def preds(self):
        p = {b.id: [] for b in self.blocks}
        for b in self.blocks:
            for s in b.succ:
                p[s].append(b.id)
        return p

    def loops(self):
        """header id -> set of block ids of the natural loop (merged per header)."""
        if self._loops is not None:
            return self._loops
        n = len(self.blocks)
        preds = self.preds()
        allb = set(range(n))
        reach = set()
        st = [0]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.blocks[b].succ)
        dom = {b: set(reach) for b in reach}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in sorted(reach):
                if b == 0:
                    continue
                ps = [dom[p] for p in preds[b] if p in reach]
                nd = set.intersection(*ps) if ps else set()
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in reach:
            for s in self.blocks[b].succ:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in reach)
        # any retreating edge that is not a back edge would make the CFG irreducible
        order = {}

        def rpo():
            seen, post = set(), []
            stack = [(0, iter(self.blocks[0].succ))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.blocks[s].succ)))
                        break
                else:
                    post.append(b)
                    stack.pop()
            return list(reversed(post))
        for i, b in enumerate(rpo()):
            order[b] = i
        self.irreducible = any(order[s] <= order[b] and s not in dom[b]
                               for b in reach for s in self.blocks[b].succ)
        self._loops = loops
        return loops


class Module:
    def __init__(self, name):
        self.name = name
        self.funcs = {}
        self.globals = {}
        self.decls = set()
        self.structs = {}


class _Ty:
    pass


def load(path, name):
    L = _lib()
    vp = C.c_void_p
    ctx = vp(L.LLVMContextCreate())
    buf = vp()
    msg = C.c_char_p()
    if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError(msg.value)
    mod = vp()
    if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
        raise RuntimeError(msg.value)
    td = vp(L.LLVMGetModuleDataLayout(mod))
    m = Module(name)
    _n = C.c_size_t()

    def vname(v):
        s = L.LLVMGetValueName2(vp(v), C.byref(_n))
        return s.decode() if s else ""

    tcache = {}

    def ty(t):
        if t in tcache:
            return tcache[t]
        k = L.LLVMGetTypeKind(vp(t))
        if k == 0:
            r = ('void',)
        elif k == 8:
            r = ('i', L.LLVMGetIntTypeWidth(vp(t)))
        elif k == 12:
            r = ('ptr',)
        elif k == 10:
            n = L.LLVMCountStructElementTypes(vp(t))
            if L.LLVMIsOpaqueStruct(vp(t)):
                r = ('opaque',)
            else:
                els = []
                for i in range(n):
                    els.append((int(L.LLVMOffsetOfElement(td, vp(t), i)), ty(L.LLVMStructGetTypeAtIndex(vp(t), i))))
                r = ('struct', int(L.LLVMABISizeOfType(td, vp(t))), tuple(els))
        elif k == 11:
            n = L.LLVMGetArrayLength(vp(t))
            et = L.LLVMGetElementType(vp(t))
            r = ('array', n, int(L.LLVMABISizeOfType(td, vp(et))), ty(et))
        elif k in (2, 3):
            r = ('fp', 32 if k == 2 else 64)
        elif k == 7:
            r = ('label',)
        elif k == 14 or k == 16:
            r = ('metadata',)
        else:
            r = ('other', k)
        tcache[t] = r
        return r

    def size_of(t):
        return int(L.LLVMABISizeOfType(td, vp(t)))

    regs = {}

    def gep_parts(v):
        """-> (base operand, const offset, [(operand, scale, width)])"""
        n = L.LLVMGetNumOperands(vp(v))
        base = opnd(L.LLVMGetOperand(vp(v), 0))
        cur = L.LLVMGetGEPSourceElementType(vp(v))
        off = 0
        dyn = []
        for i in range(1, n):
            o = L.LLVMGetOperand(vp(v), i)
            ci = L.LLVMIsAConstantInt(vp(o))
            w = ty(L.LLVMTypeOf(vp(o)))[1]
            if i == 1:
                scale = size_of(cur)
            else:
                k = L.LLVMGetTypeKind(vp(cur))
                if k == 10:
                    idx = int(L.LLVMConstIntGetZExtValue(vp(o)))
                    off += int(L.LLVMOffsetOfElement(td, vp(cur), idx))
                    cur = L.LLVMStructGetTypeAtIndex(vp(cur), idx)
                    continue
                cur = L.LLVMGetElementType(vp(cur))
                scale = size_of(cur)
            if ci:
                val = int(L.LLVMConstIntGetZExtValue(vp(o)))
                if val >= 1 << 63:
                    val -= 1 << 64
                if w < 64 and val >= 1 << (w - 1):
                    val -= 1 << w
                off += val * scale
            else:
                dyn.append((opnd(o), scale, w))
        return base, off, dyn

    def const_int(o, w):
        if w <= 64:
            return int(L.LLVMConstIntGetZExtValue(vp(o))) & ((1 << w) - 1)
        s = C.cast(L.LLVMPrintValueToString(vp(o)), C.c_char_p).value.decode()
        return int(s.split()[-1]) & ((1 << w) - 1)

    def opnd(o):
        if L.LLVMIsAInstruction(vp(o)) or L.LLVMIsAArgument(vp(o)):
            return ('r', regs[o])
        if L.LLVMIsAConstantInt(vp(o)):
            t = ty(L.LLVMTypeOf(vp(o)))
            return ('c', t[1], const_int(o, t[1]))
        if L.LLVMIsAConstantPointerNull(vp(o)):
            return ('null',)
        if L.LLVMIsAUndefValue(vp(o)) or L.LLVMIsAPoisonValue(vp(o)):
            return ('undef', ty(L.LLVMTypeOf(vp(o))))
        if L.LLVMIsAFunction(vp(o)):
            return ('f', vname(o))
        if L.LLVMIsAGlobalVariable(vp(o)):
            return ('g', vname(o))
        if L.LLVMIsAConstantExpr(vp(o)):
            op = OPC.get(L.LLVMGetConstOpcode(vp(o)), '?')
            if op == 'gep':
                b, off, dyn = gep_parts(o)
                return ('cegep', b, off)
            return ('ce', op, tuple(opnd(L.LLVMGetOperand(vp(o), i)) for i in range(L.LLVMGetNumOperands(vp(o)))),
                    ty(L.LLVMTypeOf(vp(o))))
        if L.LLVMIsAConstantAggregateZero(vp(o)):
            return ('zero', size_of(L.LLVMTypeOf(vp(o))))
        if L.LLVMIsAConstantDataSequential(vp(o)) or L.LLVMIsAConstantStruct(vp(o)) or L.LLVMIsAConstantArray(vp(o)):
            t = L.LLVMTypeOf(vp(o))
            tt = ty(t)
            parts = []
            if tt[0] == 'struct':
                for i, (off, et) in enumerate(tt[2]):
                    parts.append((off, opnd(L.LLVMGetAggregateElement(vp(o), i)), et))
            else:
                for i in range(tt[1]):
                    parts.append((i * tt[2], opnd(L.LLVMGetAggregateElement(vp(o), i)), tt[3]))
            return ('agg', size_of(t), tuple(parts))
        if L.LLVMIsAInlineAsm(vp(o)):
            return ('asm',)
        if ty(L.LLVMTypeOf(vp(o)))[0] == "metadata":
            return ('md',)
        if L.LLVMValueIsBasicBlock(vp(o)):
            return ('bb',)
        return ('unk', C.cast(L.LLVMPrintValueToString(vp(o)), C.c_char_p).value.decode())

    g = L.LLVMGetFirstGlobal(mod)
    while g:
        init = L.LLVMGetInitializer(vp(g))
        vt = L.LLVMGlobalGetValueType(vp(g))
        m.globals[vname(g)] = dict(internal=L.LLVMGetLinkage(vp(g)) in (8, 9), const=bool(L.LLVMIsGlobalConstant(vp(g))),
                                   size=size_of(vt) if L.LLVMGetTypeKind(vp(vt)) != 10 or not L.LLVMIsOpaqueStruct(vp(vt)) else 0,
                                   ty=ty(vt), init=None if not init else opnd(init),
                                   tls=bool(L.LLVMIsThreadLocal(vp(g))))
        g = L.LLVMGetNextGlobal(vp(g))

    f = L.LLVMGetFirstFunction(mod)
    while f:
        nm = vname(f)
        if L.LLVMIsDeclaration(vp(f)):
            m.decls.add(nm)
        else:
            fn = Func()
            fn.name = nm
            fn.module = m
            fn.internal = L.LLVMGetLinkage(vp(f)) in (8, 9)
            regs.clear()
            cnt = 0
            p = L.LLVMGetFirstParam(vp(f))
            while p:
                regs[p] = cnt
                fn.params.append(cnt)
                fn.param_names.append(vname(p))
                fn.param_tys.append(ty(L.LLVMTypeOf(vp(p))))
                cnt += 1
                p = L.LLVMGetNextParam(vp(p))
            bbs = {}
            order = []
            b = L.LLVMGetFirstBasicBlock(vp(f))
            while b:
                bbs[b] = len(order)
                order.append(b)
                i = L.LLVMGetFirstInstruction(vp(b))
                while i:
                    regs[i] = cnt
                    cnt += 1
                    i = L.LLVMGetNextInstruction(vp(i))
                b = L.LLVMGetNextBasicBlock(vp(b))
            for b in order:
                blk = Block()
                blk.id = bbs[b]
                blk.name = vname(L.LLVMBasicBlockAsValue(vp(b)))
                blk.ins = []
                blk.succ = []
                i = L.LLVMGetFirstInstruction(vp(b))
                while i:
                    op = OPC.get(L.LLVMGetInstructionOpcode(vp(i)), '?')
                    I = Ins(op)
                    I.res = regs[i]
                    I.ty = ty(L.LLVMTypeOf(vp(i)))
                    I.line = L.LLVMGetDebugLocLine(vp(i))
                    I.name = vname(i)
                    if op == 'br':
                        if L.LLVMIsConditional(vp(i)):
                            I.ops = (opnd(L.LLVMGetCondition(vp(i))),)
                            I.x = (bbs[L.LLVMGetSuccessor(vp(i), 0)], bbs[L.LLVMGetSuccessor(vp(i), 1)])
                        else:
                            I.x = (bbs[L.LLVMGetSuccessor(vp(i), 0)],)
                        blk.succ = list(I.x)
                    elif op == 'switch':
                        n = L.LLVMGetNumOperands(vp(i))
                        I.ops = (opnd(L.LLVMGetOperand(vp(i), 0)),)
                        dflt = bbs[L.LLVMGetSwitchDefaultDest(vp(i))]
                        cases = []
                        for k in range(2, n, 2):
                            cases.append((opnd(L.LLVMGetOperand(vp(i), k)),
                                          bbs[L.LLVMValueAsBasicBlock(vp(L.LLVMGetOperand(vp(i), k + 1)))]))
                        I.x = (dflt, cases)
                        blk.succ = [dflt] + [c[1] for c in cases]
                    elif op == 'phi':
                        n = L.LLVMCountIncoming(vp(i))
                        I.x = [(opnd(L.LLVMGetIncomingValue(vp(i), k)), bbs[L.LLVMGetIncomingBlock(vp(i), k)])
                               for k in range(n)]
                    elif op == 'gep':
                        I.x = gep_parts(i)
                    elif op == 'alloca':
                        t = L.LLVMGetAllocatedType(vp(i))
                        I.ops = (opnd(L.LLVMGetOperand(vp(i), 0)),)
                        I.x = (size_of(t), ty(t))
                    elif op == 'call':
                        cv = L.LLVMGetCalledValue(vp(i))
                        n = L.LLVMGetNumArgOperands(vp(i))
                        co = opnd(cv)
                        I.x = co
                        if co[0] == 'f' and co[1].startswith('llvm.dbg'):
                            i = L.LLVMGetNextInstruction(vp(i))
                            continue
                        I.ops = tuple(opnd(L.LLVMGetOperand(vp(i), k)) for k in range(n))
                    elif op in ('extractvalue', 'insertvalue'):
                        k = L.LLVMGetNumIndices(vp(i))
                        arr = C.cast(L.LLVMGetIndices(vp(i)), C.POINTER(C.c_uint))
                        I.x = [arr[j] for j in range(k)]
                        I.ops = tuple(opnd(L.LLVMGetOperand(vp(i), k)) for k in range(L.LLVMGetNumOperands(vp(i))))
                    else:
                        I.ops = tuple(opnd(L.LLVMGetOperand(vp(i), k)) for k in range(L.LLVMGetNumOperands(vp(i))))
                        if op == 'icmp':
                            I.x = PRED[L.LLVMGetICmpPredicate(vp(i))]
                        elif op == 'atomicrmw':
                            I.x = RMW.get(L.LLVMGetAtomicRMWBinOp(vp(i)), '?')
                        elif op == 'store':
                            I.x = (ty(L.LLVMTypeOf(vp(L.LLVMGetOperand(vp(i), 0)))),)
                        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast'):
                            I.x = ty(L.LLVMTypeOf(vp(L.LLVMGetOperand(vp(i), 0))))
                    blk.ins.append(I)
                    i = L.LLVMGetNextInstruction(vp(i))
                fn.blocks.append(blk)
            fn.ret_ty = ty(L.LLVMGetReturnType(vp(L.LLVMGlobalGetValueType(vp(f)))))
            m.funcs[nm] = fn
        f = L.LLVMGetNextFunction(vp(f))
    m.structs = parse_structs(path)
    return m


_MD = re.compile(r'^!(\d+) = (?:distinct )?!(DICompositeType|DIDerivedType|DIBasicType)\((.*)\)\s*$')
_LST = re.compile(r'^!(\d+) = !\{(.*)\}\s*$')


def parse_structs(path):
    """struct name -> {field path: (offset, size)} in bytes, plus '' -> total size."""
    nodes, lists = {}, {}
    with open(path) as fh:
        for ln in fh:
            if not ln.startswith('!'):
                continue
            mm = _MD.match(ln)
            if mm:
                d = {}
                for k, v in re.findall(r'(\w+): (?:"([^"]*)"|[^,]+)', mm.group(3)) and \
                        [(a, b or c) for a, b, c in re.findall(r'(\w+): (?:"([^"]*)"|([^,]+))', mm.group(3))]:
                    d[k] = v
                d['_k'] = mm.group(2)
                nodes[mm.group(1)] = d
                continue
            mm = _LST.match(ln)
            if mm:
                lists[mm.group(1)] = re.findall(r'!(\d+)', mm.group(2))

    def strip(t):
        while t in nodes and nodes[t]['_k'] == 'DIDerivedType' and nodes[t].get('tag') in (
                'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
            t = nodes[t].get('baseType', '!').lstrip('!')
        return t

    def fields(t, base, prefix, out, depth=0):
        d = nodes.get(t)
        if not d or d['_k'] != 'DICompositeType' or d.get('tag') not in (
                'DW_TAG_structure_type', 'DW_TAG_union_type'):
            return
        for e in lists.get(d.get('elements', '!').lstrip('!'), ()):
            x = nodes.get(e)
            if not x or x.get('tag') != 'DW_TAG_member':
                continue
            off = base + int(x.get('offset', '0')) // 8
            size = int(x.get('size', '0')) // 8
            nm = x.get('name')
            key = prefix + nm if nm else prefix.rstrip('.')
            bt = strip(x.get('baseType', '!').lstrip('!'))
            if nm:
                out[key] = (off, size)
            if depth < 5:
                fields(bt, off, (key + '.') if nm else prefix, out, depth + 1)

    res = {}
    for t, d in nodes.items():
        if d['_k'] == 'DICompositeType' and d.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type') and d.get('name') and 'elements' in d:
            out = {'': (0, int(d.get('size', '0')) // 8)}
            fields(t, 0, '', out)
            res[d['name']] = out
    return res
