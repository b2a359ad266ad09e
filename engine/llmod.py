"""LLVM module -> Python source, through the LLVM-C API (ctypes)."""
import ctypes as C
import rt

_cands = ['/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/x86_64-linux-gnu/libLLVM-18.so',
          '/usr/lib/llvm-18/lib/libLLVM.so.18.1', '/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1']
L = None
for _c in _cands:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        pass
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


CreateMemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
CtxCreate = _f('LLVMContextCreate', P)
FirstFn = _f('LLVMGetFirstFunction', P, P)
NextFn = _f('LLVMGetNextFunction', P, P)
FirstG = _f('LLVMGetFirstGlobal', P, P)
NextG = _f('LLVMGetNextGlobal', P, P)
FirstA = _f('LLVMGetFirstGlobalAlias', P, P)
NextA = _f('LLVMGetNextGlobalAlias', P, P)
AliasTarget = _f('LLVMAliasGetAliasee', P, P)
GetName = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P)
NextI = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, P)
NumOps = _f('LLVMGetNumOperands', C.c_int, P)
Operand = _f('LLVMGetOperand', P, P, C.c_uint)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntWidth = _f('LLVMGetIntTypeWidth', C.c_uint, P)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P)
FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, P)
ValueKind = _f('LLVMGetValueKind', C.c_int, P)
ZExtVal = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
RealVal = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
GEPSrc = _f('LLVMGetGEPSourceElementType', P, P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
NParams = _f('LLVMCountParams', C.c_uint, P)
Param = _f('LLVMGetParam', P, P, C.c_uint)
Called = _f('LLVMGetCalledValue', P, P)
CalledTy = _f('LLVMGetCalledFunctionType', P, P)
NumSucc = _f('LLVMGetNumSuccessors', C.c_uint, P)
Succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
IsCond = _f('LLVMIsConditional', C.c_int, P)
Cond = _f('LLVMGetCondition', P, P)
NumInc = _f('LLVMCountIncoming', C.c_uint, P)
IncVal = _f('LLVMGetIncomingValue', P, P, C.c_uint)
IncBB = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
NumIdx = _f('LLVMGetNumIndices', C.c_uint, P)
Idx = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
NumMask = _f('LLVMGetNumMaskElements', C.c_uint, P)
MaskVal = _f('LLVMGetMaskValue', C.c_int, P, C.c_uint)
DataLayout = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
OffsetOf = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
NElts = _f('LLVMCountStructElementTypes', C.c_uint, P)
EltAt = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
ElTy = _f('LLVMGetElementType', P, P)
ArrLen = _f('LLVMGetArrayLength2', C.c_ulonglong, P)
VecSize = _f('LLVMGetVectorSize', C.c_uint, P)
GInit = _f('LLVMGetInitializer', P, P)
GIsConst = _f('LLVMIsGlobalConstant', C.c_int, P)
GValTy = _f('LLVMGlobalGetValueType', P, P)
RetTy = _f('LLVMGetReturnType', P, P)
IsCStr = _f('LLVMIsConstantString', C.c_int, P)
AsStr = _f('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
AggElt = _f('LLVMGetAggregateElement', P, P, C.c_uint)
PrintV = _f('LLVMPrintValueToString', C.c_char_p, P)
NumArgs = _f('LLVMGetNumArgOperands', C.c_uint, P)
IntrID = _f('LLVMGetIntrinsicID', C.c_uint, P)
AtomicOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
HasPers = None

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr',
       22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc',
       31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext',
       39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 66: 'fneg', 68: 'freeze', 60: 'addrspacecast'}
IPRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FPRED = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
         11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# value kinds
VK_ARG, VK_FN, VK_ALIAS, VK_GV = 0, 5, 6, 8
VK = {}


def vname(v):
    n = C.c_size_t()
    return GetName(v, C.byref(n)).decode('latin-1')


# LLVMValueKind enumeration of LLVM 18
(VKArgument, VKBasicBlock, VKMemoryUse, VKMemoryDef, VKMemoryPhi, VKFunction, VKGlobalAlias, VKGlobalIFunc, VKGlobalVariable,
 VKBlockAddress, VKConstantExpr, VKConstantArray, VKConstantStruct, VKConstantVector, VKUndef, VKAggZero, VKDataArray,
 VKDataVector, VKConstInt, VKConstFP, VKNull, VKTokenNone, VKMetadata, VKInlineAsm, VKInstruction, VKPoison) = range(26)


class Unsup(rt.Unsupported):
    pass


class Module(object):
    def __init__(self, path, overrides=()):
        self.ctx = CtxCreate()
        buf = P()
        err = C.c_char_p()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if ParseIR(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.dl = DataLayout(m)
        self.addr = {}       # value ptr -> address
        self.fns = {}        # name -> value
        self.fn_by_addr = {}
        self.glob = {}       # objid -> value
        self._tcache = {}
        oid = 1000
        f = FirstFn(m)
        while f:
            n = vname(f)
            self.fns[n] = f
            self.addr[f] = (oid << 32) + rt.BASE
            self.fn_by_addr[self.addr[f]] = n
            oid += 1
            f = NextFn(f)
        g = FirstG(m)
        self.gname = {}
        while g:
            self.addr[g] = (oid << 32) + rt.BASE
            self.glob[oid] = g
            self.gname[vname(g)] = self.addr[g]
            oid += 1
            g = NextG(g)
        a = FirstA(m)
        while a:
            t = AliasTarget(a)
            self.addr[a] = ('alias', t)
            a = NextA(a)
        self.first_oid = oid + 1
        self.aliases = {}
        a = FirstA(m)
        while a:
            t = AliasTarget(a)
            if ValueKind(t) == VKFunction:
                self.aliases[vname(a)] = vname(t)
            a = NextA(a)

    # ------------------------------------------------------------ types
    def ty(self, t):
        r = self._tcache.get(t)
        if r is None:
            k = TypeKind(t)
            if k == 8:
                r = ('i', IntWidth(t))
            elif k == 2:
                r = ('f',)
            elif k == 3:
                r = ('d',)
            elif k == 12:
                r = ('p',)
            elif k == 13:
                r = ('v', VecSize(t), self.ty(ElTy(t)))
            elif k == 10:
                r = ('s', tuple(self.ty(EltAt(t, i)) for i in range(NElts(t))))
            elif k == 11:
                r = ('a', ArrLen(t), self.ty(ElTy(t)))
            elif k == 0:
                r = ('void',)
            elif k == 4:
                r = ('x86fp80',)
            else:
                r = ('?', k)
            self._tcache[t] = r
        return r

    def size(self, t):
        return ABISize(self.dl, t)

    # -------------------------------------------------------- constants
    def const(self, v):
        """constant -> python value (aggregates as tuples)"""
        k = ValueKind(v)
        t = TypeOf(v)
        if k == VKConstInt:
            w = IntWidth(t)
            if w <= 64:
                x = ZExtVal(v)
            else:
                s = PrintV(v).decode()
                x = int(s.split()[-1]) & ((1 << w) - 1)
            return bool(x) if w == 1 else x
        if k == VKConstFP:
            b = C.c_int()
            return RealVal(v, C.byref(b))
        if k == VKNull:
            return 0
        if k in (VKUndef, VKPoison):
            return self.undef_of(self.ty(t))
        if k == VKAggZero:
            return self.zero_of(self.ty(t))
        if k in (VKFunction, VKGlobalVariable):
            return self.addr[v]
        if k == VKGlobalAlias:
            return self.const(AliasTarget(v))
        if k in (VKConstantArray, VKConstantStruct, VKConstantVector):
            return tuple(self.const(Operand(v, i)) for i in range(NumOps(v)))
        if k in (VKDataArray, VKDataVector):
            n = ArrLen(t) if k == VKDataArray else VecSize(t)
            if k == VKDataArray and IsCStr(v):
                ln = C.c_size_t()
                p = AsStr(v, C.byref(ln))
                s = C.string_at(p, ln.value)
                return tuple(s)
            return tuple(self.const(AggElt(v, i)) for i in range(n))
        if k == VKConstantExpr:
            op = OPC.get(ConstOpcode(v))
            if op == 'getelementptr':
                return self.const_gep(v)
            if op in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.const(Operand(v, 0))
            if op in ('add', 'sub'):
                a, b = self.const(Operand(v, 0)), self.const(Operand(v, 1))
                w = IntWidth(t)
                return (a + b if op == 'add' else a - b) & ((1 << w) - 1)
            if op == 'trunc':
                return self.const(Operand(v, 0)) & ((1 << IntWidth(t)) - 1)
            if op == 'icmp':
                a, b = self.const(Operand(v, 0)), self.const(Operand(v, 1))
                return rt.icmp(IPRED[ICmpPred(v)], a, b, 64)
        raise Unsup('constant %s' % PrintV(v).decode()[:200])

    def undef_of(self, t):
        if t[0] == 's':
            return tuple(self.undef_of(x) for x in t[1])
        if t[0] in ('a', 'v'):
            return tuple([self.undef_of(t[2])] * t[1])
        return rt.U

    def zero_of(self, t):
        if t[0] == 's':
            return tuple(self.zero_of(x) for x in t[1])
        if t[0] in ('a', 'v'):
            return tuple([self.zero_of(t[2])] * t[1])
        if t[0] in ('f', 'd'):
            return 0.0
        if t == ('i', 1):
            return False
        return 0

    def const_gep(self, v):
        base = self.const(Operand(v, 0))
        t = GEPSrc(v)
        off = 0
        for i in range(1, NumOps(v)):
            x = rt.sgn(self.const(Operand(v, i)), IntWidth(TypeOf(Operand(v, i))))
            if i == 1:
                off += x * self.size(t)
            else:
                k = TypeKind(t)
                if k == 10:
                    off += OffsetOf(self.dl, t, x)
                    t = EltAt(t, x)
                else:
                    t = ElTy(t)
                    off += x * self.size(t)
        return (base + off) & 0xffffffffffffffff

    def init_global(self, oid):
        g = self.glob.get(oid)
        if g is None:
            return None
        t = GValTy(g)
        o = rt.Obj(self.size(t), 'global', vname(g))
        if IsDecl(g) and vname(g) == '__libc_single_threaded':
            o.fill = 0          # reference counts by the atomic path
            return o
        if IsDecl(g):
            raise Unsup('external global %s' % vname(g))
        init = GInit(g)
        if ValueKind(init) == VKAggZero or ValueKind(init) == VKNull:
            o.fill = 0
        else:
            self.put_const(o, 0, t, init)
        o.ro = bool(GIsConst(g))
        return o

    def put_const(self, o, off, t, v):
        k = TypeKind(t)
        vk = ValueKind(v)
        if vk == VKAggZero:
            n = self.size(t)
            for i in range(0, n):
                o.cells[off + i] = (1, 0)
            return
        if vk in (VKUndef, VKPoison):
            return
        if k == 10:
            for i in range(NElts(t)):
                self.put_const(o, off + OffsetOf(self.dl, t, i), EltAt(t, i), AggElt(v, i))
        elif k in (11, 13):
            et = ElTy(t)
            es = self.size(et)
            c = self.const(v)
            if self.ty(et)[0] in ('i', 'f', 'd'):
                for i, x in enumerate(c):
                    if x is not rt.U:
                        o.cells[off + i * es] = (es, int(x) if x.__class__ is bool else x)
            else:
                for i in range(len(c)):
                    self.put_const(o, off + i * es, et, AggElt(v, i))
        else:
            x = self.const(v)
            o.cells[off] = (self.size(t), int(x) if x.__class__ is bool else x)

    # --------------------------------------------------------- codegen
    def compile(self, name):
        return FnGen(self, self.fns[name], name).gen()


def pylit(c):
    if c is rt.U:
        return 'U'
    if c.__class__ is float:
        if c != c:
            return 'NAN'
        if c == float('inf'):
            return 'INF'
        if c == float('-inf'):
            return '(-INF)'
        return repr(c)
    if c.__class__ is tuple:
        return '(' + ''.join(pylit(x) + ',' for x in c) + ')'
    return repr(c)


class FnGen(object):
    def __init__(self, mod, f, name):
        self.mod = mod
        self.f = f
        self.name = name
        self.names = {}
        self.n = 0

    def op(self, v):
        n = self.names.get(v)
        if n is not None:
            return n
        k = ValueKind(v)
        if k == VKInstruction or k == VKArgument:
            self.n += 1
            n = 'v%d' % self.n
            self.names[v] = n
            return n
        c = self.mod.const(v)
        s = pylit(c)
        if len(s) > 400:
            nm = 'K%d' % len(self.consts)
            self.consts[nm] = c
            s = nm
        self.names[v] = s
        return s

    def gen(self):
        f = self.f
        self.consts = {}
        args = [self.op(Param(f, i)) for i in range(NParams(f))]
        blocks = []
        b = FirstBB(f)
        bid = {}
        while b:
            bid[b] = len(blocks)
            blocks.append(b)
            b = NextBB(b)
        self.bid = bid
        self.hasalloca = False
        bodies = []
        for b in blocks:
            bodies.append(self.block(b))
        out = []
        out.append('def fn(%s):' % ', '.join(args + ['*_va']))
        out.append(' S.depth += 1')
        out.append(' if S.depth > 400: raise Unsupported("recursion depth in %s")' % self.name.replace('"', ''))
        if self.hasalloca:
            out.append(' _fr = []')
        if len(blocks) == 1:
            for ln in bodies[0]:
                out.append(' ' + ln)
        else:
            out.append(' _b = 0')
            out.append(' while True:')
            out.append('  S.steps += 1')
            out.append('  if S.steps > S.maxsteps: raise Unsupported("step limit")')

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    for ln in bodies[lo]:
                        out.append(ind + ln)
                    return
                if hi - lo <= 2:
                    out.append(ind + 'if _b == %d:' % lo)
                    tree(lo, lo + 1, ind + ' ')
                    out.append(ind + 'else:')
                    tree(lo + 1, hi, ind + ' ')
                    return
                mid = (lo + hi) // 2
                out.append(ind + 'if _b < %d:' % mid)
                tree(lo, mid, ind + ' ')
                out.append(ind + 'else:')
                tree(mid, hi, ind + ' ')
            tree(0, len(blocks), '  ')
        return '\n'.join(out), self.consts

    def edge(self, frm, to):
        """phi assignments + jump"""
        lhs, rhs = [], []
        i = FirstI(to)
        while i and OPC.get(Opcode(i)) == 'phi':
            for k in range(NumInc(i)):
                if IncBB(i, k) == frm:
                    lhs.append(self.op(i))
                    rhs.append(self.op(IncVal(i, k)))
                    break
            i = NextI(i)
        out = []
        if lhs:
            out.append('%s = %s' % (', '.join(lhs), ', '.join(rhs)))
        out.append('_b = %d' % self.bid[to])
        return out

    def block(self, b):
        out = []
        i = FirstI(b)
        while i:
            o = OPC.get(Opcode(i))
            if o is None:
                raise Unsup('opcode %d in %s' % (Opcode(i), self.name))
            if o != 'phi':
                try:
                    out.extend(self.inst(o, i, b))
                except Unsup as e:
                    out.append('raise Unsupported(%r)' % str(e))
            i = NextI(i)
        return out or ['pass']

    def vecop(self, i, t, fn):
        """elementwise binary vector operation; fn(a,b)->expr"""
        a, b = self.op(Operand(i, 0)), self.op(Operand(i, 1))
        return '%s = tuple([%s for _x, _y in zip(%s, %s)])' % (self.op(i), fn('_x', '_y'), a, b)

    def inst(self, o, i, bb):
        M = self.mod
        t = M.ty(TypeOf(i))
        if o in ('add', 'sub', 'mul'):
            if t[0] == 'v':
                w = t[2][1]
                return [self.vecop(i, t, lambda a, b: 'i%s(%s, %s, %d)' % (o, a, b, w))]
            w = t[1]
            a, b = self.op(Operand(i, 0)), self.op(Operand(i, 1))
            sym = {'add': '+', 'sub': '-', 'mul': '*'}[o]
            if w == 1:
                return ['%s = %s(%s, %s, 1)' % (self.op(i), 'iand' if o == 'mul' else 'ixor', a, b)]
            ck = ' and '.join('%s.__class__ is int' % x for x in (a, b) if not x.lstrip('-').isdigit()) or 'True'
            return ['%s = (%s %s %s) & %d if %s else i%s(%s, %s, %d)' % (self.op(i), a, sym, b, (1 << w) - 1, ck, o, a, b, w)]
        if o in ('udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if t[0] == 'v':
                w = t[2][1]
                return [self.vecop(i, t, lambda a, b: 'i%s(%s, %s, %d)' % (o, a, b, w))]
            return ['%s = i%s(%s, %s, %d)' % (self.op(i), o, self.op(Operand(i, 0)), self.op(Operand(i, 1)), t[1])]
        if o in ('fadd', 'fsub', 'fmul', 'fdiv'):
            if t[0] == 'v':
                w = '32' if t[2][0] == 'f' else '64'
                return [self.vecop(i, t, lambda a, b: '%s%s(%s, %s)' % (o, w, a, b))]
            if t[0] not in ('f', 'd'):
                raise Unsup('float type %s' % (t,))
            return ['%s = %s%s(%s, %s)' % (self.op(i), o, '32' if t[0] == 'f' else '64', self.op(Operand(i, 0)), self.op(Operand(i, 1)))]
        if o == 'frem':
            return ['%s = libm("fmod", %r, %s, %s)' % (self.op(i), t[0], self.op(Operand(i, 0)), self.op(Operand(i, 1)))]
        if o == 'fneg':
            if t[0] == 'v':
                return ['%s = tuple([fneg_(_x, %r) for _x in %s])' % (self.op(i), t[2][0], self.op(Operand(i, 0)))]
            return ['%s = fneg_(%s, %r)' % (self.op(i), self.op(Operand(i, 0)), t[0])]
        if o == 'icmp':
            ot = M.ty(TypeOf(Operand(i, 0)))
            pred = IPRED[ICmpPred(i)]
            if ot[0] == 'v':
                w = ot[2][1] if ot[2][0] == 'i' else 64
                return [self.vecop(i, t, lambda a, b: 'icmp(%r, %s, %s, %d)' % (pred, a, b, w))]
            w = ot[1] if ot[0] == 'i' else 64
            a, b = self.op(Operand(i, 0)), self.op(Operand(i, 1))
            sym = {'eq': '==', 'ne': '!=', 'ult': '<', 'ule': '<=', 'ugt': '>', 'uge': '>='}.get(pred)
            if sym and w > 1:
                ck = ' and '.join('%s.__class__ is int' % x for x in (a, b) if not x.isdigit()) or 'True'
                return ['%s = %s %s %s if %s else icmp(%r, %s, %s, %d)' % (self.op(i), a, sym, b, ck, pred, a, b, w)]
            return ['%s = icmp(%r, %s, %s, %d)' % (self.op(i), pred, a, b, w)]
        if o == 'fcmp':
            ot = M.ty(TypeOf(Operand(i, 0)))
            pred = FPRED[FCmpPred(i)]
            if ot[0] == 'v':
                return [self.vecop(i, t, lambda a, b: 'fcmp(%r, %s, %s, %r)' % (pred, a, b, ot[2][0]))]
            return ['%s = fcmp(%r, %s, %s, %r)' % (self.op(i), pred, self.op(Operand(i, 0)), self.op(Operand(i, 1)), ot[0])]
        if o == 'br':
            if IsCond(i):
                c = self.op(Cond(i))
                s0, s1 = Succ(i, 0), Succ(i, 1)
                out = ['if %s if %s.__class__ is bool else branch(%s):' % (c, c, c)]
                out += [' ' + x for x in self.edge(bb, s0)]
                out += ['else:']
                out += [' ' + x for x in self.edge(bb, s1)]
                return out
            return self.edge(bb, Succ(i, 0))
        if o == 'switch':
            ot = M.ty(TypeOf(Operand(i, 0)))
            v = self.op(Operand(i, 0))
            out = []
            n = NumOps(i)
            first = True
            for k in range(2, n, 2):
                c = self.op(Operand(i, k))
                # successor operand k+1 is a basic block value
                s = Succ(i, k // 2)
                out.append('%s branch(icmp("eq", %s, %s, %d)):' % ('if' if first else 'elif', v, c, ot[1]))
                first = False
                out += [' ' + x for x in self.edge(bb, s)]
            if first:
                return self.edge(bb, Succ(i, 0))
            out.append('else:')
            out += [' ' + x for x in self.edge(bb, Succ(i, 0))]
            return out
        if o == 'ret':
            out = ['S.depth -= 1']
            if self.hasalloca:
                out.append('popframe(_fr)')
            out.append('return %s' % (self.op(Operand(i, 0)) if NumOps(i) else 'None'))
            return out
        if o == 'unreachable':
            return ['raise BugFound("reached unreachable code in %s")' % self.name]
        if o == 'alloca':
            self.hasalloca = True
            at = AllocTy(i)
            n = self.op(Operand(i, 0))
            return ['%s = alloca(_fr, %d * concint(%s, 64), %r)' % (self.op(i), M.size(at), n, vname(i) or 'local')]
        if o == 'load':
            p = self.op(Operand(i, 0))
            return ['%s = %s' % (self.op(i), self.ldexpr(p, TypeOf(i)))]
        if o == 'store':
            v = Operand(i, 0)
            return self.stexpr(self.op(Operand(i, 1)), self.op(v), TypeOf(v))
        if o == 'getelementptr':
            return self.gep(i)
        if o == 'phi':
            return []
        if o == 'trunc':
            st = M.ty(TypeOf(Operand(i, 0)))
            if st[0] == 'v':
                return ['%s = tuple([trunc(_x, %d, %d) for _x in %s])' % (self.op(i), st[2][1], t[2][1], self.op(Operand(i, 0)))]
            return ['%s = trunc(%s, %d, %d)' % (self.op(i), self.op(Operand(i, 0)), st[1], t[1])]
        if o in ('zext', 'sext'):
            st = M.ty(TypeOf(Operand(i, 0)))
            if st[0] == 'v':
                return ['%s = tuple([%s(_x, %d, %d) for _x in %s])' % (self.op(i), o, st[2][1], t[2][1], self.op(Operand(i, 0)))]
            return ['%s = %s(%s, %d, %d)' % (self.op(i), o, self.op(Operand(i, 0)), st[1], t[1])]
        if o in ('sitofp', 'uitofp'):
            st = M.ty(TypeOf(Operand(i, 0)))
            if st[0] == 'v':
                return ['%s = tuple([%s(_x, %d, %r) for _x in %s])' % (self.op(i), o, st[2][1], t[2][0], self.op(Operand(i, 0)))]
            return ['%s = %s(%s, %d, %r)' % (self.op(i), o, self.op(Operand(i, 0)), st[1], t[0])]
        if o in ('fptosi', 'fptoui'):
            st = M.ty(TypeOf(Operand(i, 0)))
            return ['%s = %s(%s, %r, %d)' % (self.op(i), o, self.op(Operand(i, 0)), st[0], t[1])]
        if o in ('fptrunc', 'fpext'):
            if t[0] == 'v':
                return ['%s = tuple([%s(_x) for _x in %s])' % (self.op(i), o, self.op(Operand(i, 0)))]
            if t[0] == 'x86fp80':
                raise Unsup('long double')
            return ['%s = %s(%s)' % (self.op(i), o, self.op(Operand(i, 0)))]
        if o in ('ptrtoint', 'inttoptr', 'addrspacecast'):
            return ['%s = %s' % (self.op(i), self.op(Operand(i, 0)))]
        if o == 'bitcast':
            st = M.ty(TypeOf(Operand(i, 0)))
            return ['%s = bitcast(%s, %r, %r)' % (self.op(i), self.op(Operand(i, 0)), st, t)]
        if o == 'freeze':
            v = self.op(Operand(i, 0))
            return ['%s = %s if %s is not U else %s' % (self.op(i), v, v, pylit(M.zero_of(t)))]
        if o == 'select':
            c, a, b = [self.op(Operand(i, k)) for k in range(3)]
            ct = M.ty(TypeOf(Operand(i, 0)))
            if ct[0] == 'v':
                return ['%s = tuple([%s for _c, _x, _y in zip(%s, %s, %s)])' % (self.op(i), self.sel('_c', '_x', '_y', t[2]), c, a, b)]
            return ['%s = %s' % (self.op(i), self.sel(c, a, b, t))]
        if o == 'extractvalue':
            s = self.op(Operand(i, 0))
            ix = Idx(i)
            for k in range(NumIdx(i)):
                s += '[%d]' % ix[k]
            return ['%s = %s' % (self.op(i), s)]
        if o == 'insertvalue':
            n = NumIdx(i)
            ix = [Idx(i)[k] for k in range(n)]
            return ['%s = insval(%s, %s, %r)' % (self.op(i), self.op(Operand(i, 0)), self.op(Operand(i, 1)), tuple(ix))]
        if o == 'extractelement':
            return ['%s = %s[concint(%s, 64)]' % (self.op(i), self.op(Operand(i, 0)), self.op(Operand(i, 1)))]
        if o == 'insertelement':
            return ['%s = insval(%s, %s, (concint(%s, 64),))' % (self.op(i), self.op(Operand(i, 0)), self.op(Operand(i, 1)), self.op(Operand(i, 2)))]
        if o == 'shufflevector':
            st = M.ty(TypeOf(Operand(i, 0)))
            a, b = self.op(Operand(i, 0)), self.op(Operand(i, 1))
            ps = []
            for k in range(NumMask(i)):
                m = MaskVal(i, k)
                ps.append('U' if m < 0 else ('%s[%d]' % (a, m) if m < st[1] else '%s[%d]' % (b, m - st[1])))
            return ['%s = (%s,)' % (self.op(i), ', '.join(ps))]
        if o == 'fence':
            return []
        if o == 'atomicrmw':
            p, v = self.op(Operand(i, 0)), self.op(Operand(i, 1))
            k = AtomicOp(i)
            f = {0: 'v', 1: 'iadd', 2: 'isub', 3: 'iand', 5: 'ior', 6: 'ixor'}.get(k)
            if f is None:
                raise Unsup('atomicrmw')
            n = self.op(i)
            ld = self.ldexpr(p, TypeOf(i))
            new = v if k == 0 else '%s(%s, %s, %d)' % (f, n, v, t[1])
            return ['%s = %s' % (n, ld)] + self.stexpr(p, new, TypeOf(i))
        if o == 'cmpxchg':
            p, a, b = [self.op(Operand(i, k)) for k in range(3)]
            ot = TypeOf(Operand(i, 1))
            n = self.op(i)
            return ['%s = %s' % (n, self.ldexpr(p, ot)),
                    'if branch(icmp("eq", %s, %s, %d)):' % (n, a, M.ty(ot)[1] if M.ty(ot)[0] == 'i' else 64)] + \
                [' ' + x for x in self.stexpr(p, b, ot)] + [' %s = (%s, True)' % (n, n), 'else:', ' %s = (%s, False)' % (n, n)]
        if o in ('call', 'invoke'):
            r = self.call(i)
            if o == 'invoke':
                r += self.edge(bb, Succ(i, 0))
            return r
        raise Unsup('instruction %s' % o)

    def sel(self, c, a, b, t):
        k = t[0]
        if k == 'i':
            if t[1] == 1:
                return 'select_b(%s, %s, %s)' % (c, a, b)
            return 'select_i(%s, %s, %s, %d)' % (c, a, b, t[1])
        if k in ('f', 'd'):
            return 'select_f(%s, %s, %s, %r)' % (c, a, b, k)
        return 'select_p(%s, %s, %s)' % (c, a, b)

    def ldexpr(self, p, ty):
        M = self.mod
        t = M.ty(ty)
        k = t[0]
        n = StoreSize(M.dl, ty)
        if k in ('f', 'd'):
            return 'asf(load(%s, %d), %r)' % (p, n, k)
        if k == 'i':
            if t[1] == 1:
                return 'asb(load(%s, 1))' % p
            return 'asi(load(%s, %d), %d)' % (p, n, t[1])
        if k == 'p':
            return 'asi(load(%s, 8), 64)' % p
        if k == 'v':
            es = n // t[1]
            return '(%s,)' % ', '.join('_norm(load(%s + %d, %d), %r)' % (p, j * es, es, t[2]) for j in range(t[1]))
        if k in ('s', 'a'):
            return '(%s,)' % ', '.join(self.ldexpr('(%s + %d)' % (p, off), et) for off, et in self.fields(ty))
        raise Unsup('load of %s' % (t,))

    def fields(self, ty):
        M = self.mod
        if TypeKind(ty) == 10:
            return [(OffsetOf(M.dl, ty, j), EltAt(ty, j)) for j in range(NElts(ty))]
        et = ElTy(ty)
        return [(j * M.size(et), et) for j in range(ArrLen(ty))]

    def stexpr(self, p, v, ty):
        M = self.mod
        t = M.ty(ty)
        k = t[0]
        if k in ('s', 'a'):
            out = []
            for j, (off, et) in enumerate(self.fields(ty)):
                out += self.stexpr('(%s + %d)' % (p, off), '%s[%d]' % (v, j), et)
            return out
        if k == 'x86fp80':
            raise Unsup('long double')
        if t == ('i', 1):
            return ['store(%s, 1, zext(%s, 1, 8))' % (p, v)]
        return ['store(%s, %d, %s)' % (p, StoreSize(M.dl, ty), v)]

    def gep(self, i):
        M = self.mod
        base = self.op(Operand(i, 0))
        t = GEPSrc(i)
        off = 0
        dyn = []
        if M.ty(TypeOf(i))[0] == 'v':
            raise Unsup('vector gep')
        for k in range(1, NumOps(i)):
            o = Operand(i, k)
            ck = ValueKind(o)
            if k > 1:
                if TypeKind(t) == 10:
                    x = M.const(o)
                    off += OffsetOf(M.dl, t, x)
                    t = EltAt(t, x)
                    continue
                t = ElTy(t)
            sz = M.size(t)
            w = IntWidth(TypeOf(o))
            if ck == VKConstInt:
                off += rt.sgn(ZExtVal(o), w) * sz
            else:
                dyn.append((self.op(o), sz, w))
        n = self.op(i)
        expr = base
        for v, sz, w in dyn:
            expr = 'gep(%s, %s, %d, %d)' % (expr, v, sz, w)
        if off == 0:
            return ['%s = %s' % (n, expr)]
        if dyn:
            return ['%s = %s + %d' % (n, expr, off)]
        return ['%s = %s + %d if %s.__class__ is int else gep(%s, 1, %d, 64)' % (n, base, off, base, base, off)]

    def call(self, i):
        M = self.mod
        cv = Called(i)
        nargs = NumArgs(i)
        t = M.ty(TypeOf(i))
        k = ValueKind(cv)
        ret = '' if t[0] == 'void' else '%s = ' % self.op(i)
        if k == VKInlineAsm:
            return []
        if k == VKGlobalAlias:
            cv = AliasTarget(cv)
            k = ValueKind(cv)
        if k == VKFunction:
            name = vname(cv)
            if name.startswith('llvm.'):
                return self.intrinsic(name, i, nargs, ret, t)
            args = [self.op(Operand(i, j)) for j in range(nargs)]
            return ['%sF[%r](%s)' % (ret, name, ', '.join(args))]
        args = [self.op(Operand(i, j)) for j in range(nargs)]
        return ['%sicall(%s)(%s)' % (ret, self.op(cv), ', '.join(args))]

    def intrinsic(self, name, i, nargs, ret, t):
        M = self.mod
        A = [None] * nargs

        def a(j):
            return self.op(Operand(i, j))
        p = name.split('.')
        base = p[1]
        if base in ('lifetime', 'dbg', 'assume', 'experimental', 'invariant', 'prefetch', 'donothing', 'var', 'stacksave', 'stackrestore'):
            if t[0] != 'void':
                return ['%s0' % ret]
            return []
        if base == 'memcpy' or base == 'memmove':
            return ['memcpy(%s, %s, %s)' % (a(0), a(1), a(2))]
        if base == 'memset':
            return ['memset(%s, %s, %s)' % (a(0), a(1), a(2))]
        if base == 'expect':
            return ['%s%s' % (ret, a(0))]
        if base == 'trap':
            return ['raise BugFound("trap")']
        if base in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint', 'roundeven', 'sqrt', 'fabs', 'log', 'exp', 'pow', 'log2', 'log10', 'exp2', 'sin', 'cos', 'copysign', 'maxnum', 'minnum', 'fmuladd', 'fma', 'powi'):
            n = {'fmuladd': 3, 'fma': 3, 'pow': 2, 'copysign': 2, 'maxnum': 2, 'minnum': 2, 'powi': 2}.get(base, 1)
            if t[0] == 'v':
                vs = ', '.join('_x%d' % j for j in range(n))
                zs = ', '.join(a(j) for j in range(n))
                return ['%stuple([libm(%r, %r, %s) for (%s,) in zip(%s)])' % (ret, base, t[2][0], vs, vs, zs)]
            return ['%slibm(%r, %r, %s)' % (ret, base, t[0], ', '.join(a(j) for j in range(n)))]
        if base in ('smax', 'smin', 'umax', 'umin'):
            pr = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[base]
            if t[0] == 'v':
                w = t[2][1]
                return ['%stuple([select_i(icmp(%r, _x, _y, %d), _x, _y, %d) for _x, _y in zip(%s, %s)])' % (ret, pr, w, w, a(0), a(1))]
            return ['%sselect_i(icmp(%r, %s, %s, %d), %s, %s, %d)' % (ret, pr, a(0), a(1), t[1], a(0), a(1), t[1])]
        if base == 'abs':
            return ['%siabs(%s, %d)' % (ret, a(0), t[1])]
        if base in ('ctlz', 'cttz', 'ctpop', 'bswap'):
            return ['%sbitcount(%r, concint(%s, %d), %d)' % (ret, base, a(0), t[1], t[1])]
        if base in ('usub', 'uadd', 'sadd', 'ssub', 'umul', 'smul') and p[2] == 'with':
            w = t[1][0][1]
            return ['%sovf(%r, %s, %s, %d)' % (ret, base, a(0), a(1), w)]
        if base in ('usub', 'uadd', 'sadd', 'ssub') and p[2] == 'sat':
            return ['%ssat(%r, %s, %s, %d)' % (ret, base, a(0), a(1), t[1])]
        if base == 'fshl' or base == 'fshr':
            return ['%sfsh(%r, concint(%s, 64), concint(%s, 64), concint(%s, 64), %d)' % (ret, base, a(0), a(1), a(2), t[1])]
        if base == 'is' and p[2] == 'fpclass':
            return ['%sfpclass(%s, %s, %r)' % (ret, a(0), a(1), M.ty(TypeOf(Operand(i, 0)))[0])]
        if base == 'vector' and p[2] == 'reduce':
            op = p[3]
            acc = '%s' % a(nargs - 1)
            if op in ('add', 'and', 'or', 'xor', 'mul'):
                return ['%sreduce_(lambda _x, _y: i%s(_x, _y, %d), %s)' % (ret, op, t[1], acc)]
        if base == 'eh':
            return ['%s0' % ret]
        raise Unsup('intrinsic ' + name)
