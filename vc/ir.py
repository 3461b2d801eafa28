"""Loads LLVM IR through libLLVM's C interface into plain Python objects."""
import ctypes as C
import os
import re
import subprocess

LIB = '/usr/lib/llvm-18/lib/libLLVM-18.so'
if not os.path.exists(LIB):
    LIB = '/usr/lib/llvm-18/lib/libLLVM.so.1'
L = C.CDLL(LIB)
vp = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, 'LLVM' + name)
    f.restype = res
    f.argtypes = list(args)
    return f


ContextCreate = _f('ContextCreate', vp)
CreateMB = _f('CreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(vp), C.POINTER(C.c_char_p))
ParseIR = _f('ParseIRInContext', C.c_int, vp, vp, C.POINTER(vp), C.POINTER(C.c_char_p))
FirstFunction = _f('GetFirstFunction', vp, vp)
NextFunction = _f('GetNextFunction', vp, vp)
FirstGlobal = _f('GetFirstGlobal', vp, vp)
NextGlobal = _f('GetNextGlobal', vp, vp)
FirstBB = _f('GetFirstBasicBlock', vp, vp)
NextBB = _f('GetNextBasicBlock', vp, vp)
FirstInst = _f('GetFirstInstruction', vp, vp)
NextInst = _f('GetNextInstruction', vp, vp)
GetName = _f('GetValueName2', C.c_char_p, vp, C.POINTER(C.c_size_t))
Opcode = _f('GetInstructionOpcode', C.c_int, vp)
NumOps = _f('GetNumOperands', C.c_int, vp)
Operand = _f('GetOperand', vp, vp, C.c_uint)
TypeOf = _f('TypeOf', vp, vp)
TypeKind = _f('GetTypeKind', C.c_int, vp)
IntWidth = _f('GetIntTypeWidth', C.c_uint, vp)
ICmpPred = _f('GetICmpPredicate', C.c_int, vp)
FCmpPred = _f('GetFCmpPredicate', C.c_int, vp)
CountParams = _f('CountParams', C.c_uint, vp)
GetParam = _f('GetParam', vp, vp, C.c_uint)
ValueKind = _f('GetValueKind', C.c_int, vp)
ConstIntZ = _f('ConstIntGetZExtValue', C.c_ulonglong, vp)
ConstIntS = _f('ConstIntGetSExtValue', C.c_longlong, vp)
ConstReal = _f('ConstRealGetDouble', C.c_double, vp, C.POINTER(C.c_int))
GEPType = _f('GetGEPSourceElementType', vp, vp)
DataLayout = _f('GetModuleDataLayout', vp, vp)
ABISize = _f('ABISizeOfType', C.c_ulonglong, vp, vp)
OffsetOfElement = _f('OffsetOfElement', C.c_ulonglong, vp, vp, C.c_uint)
StructAt = _f('StructGetTypeAtIndex', vp, vp, C.c_uint)
StructCount = _f('CountStructElementTypes', C.c_uint, vp)
ElemType = _f('GetElementType', vp, vp)
ArrLen = _f('GetArrayLength2', C.c_uint64, vp)
AllocatedType = _f('GetAllocatedType', vp, vp)
CountIncoming = _f('CountIncoming', C.c_uint, vp)
IncVal = _f('GetIncomingValue', vp, vp, C.c_uint)
IncBlk = _f('GetIncomingBlock', vp, vp, C.c_uint)
CalledValue = _f('GetCalledValue', vp, vp)
NumArgOps = _f('GetNumArgOperands', C.c_uint, vp)
NormalDest = _f('GetNormalDest', vp, vp)
UnwindDest = _f('GetUnwindDest', vp, vp)
NumSucc = _f('GetNumSuccessors', C.c_uint, vp)
Succ = _f('GetSuccessor', vp, vp, C.c_uint)
DebugLine = _f('GetDebugLocLine', C.c_uint, vp)
DebugFile = _f('GetDebugLocFilename', vp, vp, C.POINTER(C.c_uint))
NumIndices = _f('GetNumIndices', C.c_uint, vp)
Indices = _f('GetIndices', C.POINTER(C.c_uint), vp)
ConstOpcode = _f('GetConstOpcode', C.c_int, vp)
GetInitializer = _f('GetInitializer', vp, vp)
GlobalValueType = _f('GlobalGetValueType', vp, vp)
IsConditional = _f('IsConditional', C.c_int, vp)
Condition = _f('GetCondition', vp, vp)
PrintValue = _f('PrintValueToString', C.c_char_p, vp)
IsNull = _f('IsNull', C.c_int, vp)
IsUndef = _f('IsUndef', C.c_int, vp)
IsPoison = _f('IsPoison', C.c_int, vp)
AggElem = _f('GetAggregateElement', vp, vp, C.c_uint)
IsDecl = _f('IsDeclaration', C.c_int, vp)
IsGlobalConstant = _f('IsGlobalConstant', C.c_int, vp)
IsConstStr = _f('IsConstantString', C.c_int, vp)
GetAsString = _f('GetAsString', C.c_char_p, vp, C.POINTER(C.c_size_t))
BBTerm = _f('GetBasicBlockTerminator', vp, vp)
CaseVal = None

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi',
       45: 'call', 46: 'select', 47: 'userop1', 50: 'extractelement', 51: 'insertelement', 53: 'extractvalue',
       54: 'insertvalue', 58: 'resume', 59: 'landingpad', 66: 'fneg', 68: 'freeze'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
        11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}
# LLVMTypeKind
VOID, HALF, FLOAT, DOUBLE, LABEL, INT, FUNC, STRUCT, ARRAY, PTR = 0, 1, 2, 3, 7, 8, 9, 10, 11, 12


class Ty:
    __slots__ = ('kind', 'w', 'size', 'fields', 'elem', 'n', 'raw')

    def __repr__(self):
        if self.kind == 'int':
            return 'i%d' % self.w
        return self.kind


class Val:
    """operand: kind in const,fconst,null,undef,arg,inst,global,func,gepconst,constagg"""
    __slots__ = ('kind', 'v', 'ty', 'extra')

    def __init__(self, kind, v, ty, extra=None):
        self.kind, self.v, self.ty, self.extra = kind, v, ty, extra


class Inst:
    __slots__ = ('op', 'ty', 'ops', 'x', 'line', 'id', 'blk', 'text')


class Block:
    __slots__ = ('id', 'insts', 'succs', 'fn', 'name')

    def __repr__(self):
        return 'bb%d' % self.id


class Func:
    __slots__ = ('name', 'dname', 'args', 'blocks', 'decl', 'mod', 'rty', 'loops')

    def __repr__(self):
        return self.dname


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        mb = vp()
        err = C.c_char_p()
        if CreateMB(path.encode(), C.byref(mb), C.byref(err)):
            raise Exception('cannot read ' + path)
        m = vp()
        if ParseIR(ctx, mb, C.byref(m), C.byref(err)):
            raise Exception('parse error %s' % err.value)
        self.m = m
        self.dl = DataLayout(m)
        self.types = {}
        self.raw = {}
        self.globals = {}
        self.cache = {}
        f = FirstFunction(m)
        while f:
            n = self.name(f)
            self.raw[n] = f
            f = NextFunction(f)
        g = FirstGlobal(m)
        while g:
            self.globals[self.name(g)] = g
            g = NextGlobal(g)
        p = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(self.raw), capture_output=True, text=True)
        self.dn = dict(zip(self.raw, p.stdout.split('\n')))

    def name(self, v):
        n = C.c_size_t()
        s = GetName(v, C.byref(n))
        return s.decode()

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Ty()
        self.types[t] = r
        k = TypeKind(t)
        r.raw = t
        r.fields = r.elem = r.n = None
        r.w = 0
        r.size = None
        if k == INT:
            r.kind = 'int'
            r.w = IntWidth(t)
            r.size = max(1, r.w // 8)
        elif k == FLOAT:
            r.kind, r.size = 'F32', 4
        elif k == DOUBLE:
            r.kind, r.size = 'F64', 8
        elif k == PTR:
            r.kind, r.size = 'ptr', 8
        elif k == VOID:
            r.kind = 'void'
        elif k == STRUCT:
            r.kind = 'struct'
            n = StructCount(t)
            try:
                r.size = ABISize(self.dl, t)
            except Exception:
                r.size = 0
            r.fields = [(OffsetOfElement(self.dl, t, i), self.ty(StructAt(t, i))) for i in range(n)]
        elif k == ARRAY:
            r.kind = 'array'
            r.elem = self.ty(ElemType(t))
            r.n = ArrLen(t)
            r.size = ABISize(self.dl, t)
        else:
            r.kind = 'k%d' % k
            r.size = 0
        return r

    def find(self, pred):
        return [n for n in self.raw if pred(self.dn[n]) and not IsDecl(self.raw[n])]

    def func(self, name):
        f = self.cache.get(name)
        if f is None:
            f = self.cache[name] = self._load(name)
        return f

    def _load(self, name):
        raw = self.raw[name]
        f = Func()
        f.name, f.dname, f.mod = name, self.dn[name], self
        f.decl = bool(IsDecl(raw))
        f.args = []
        f.loops = None
        self_vals = {}
        for i in range(CountParams(raw)):
            p = GetParam(raw, i)
            t = self.ty(TypeOf(p))
            f.args.append(t)
            self_vals[p] = Val('arg', i, t)
        f.blocks = []
        if f.decl:
            return f
        blkmap = {}
        b = FirstBB(raw)
        order = []
        while b:
            o = Block()
            o.id = len(order)
            o.insts = []
            o.fn = f
            blkmap[b] = o
            order.append(b)
            f.blocks.append(o)
            b = NextBB(b)
        BBV = _f('BasicBlockAsValue', vp, vp)
        VBB = _f('ValueAsBasicBlock', vp, vp)
        instmap = {}
        n = 0
        for b in order:
            i = FirstInst(b)
            while i:
                o = Inst()
                o.id = n
                n += 1
                o.blk = blkmap[b]
                o.ty = self.ty(TypeOf(i))
                instmap[i] = o
                blkmap[b].insts.append((i, o))
                i = NextInst(i)

        def val(v):
            r = self_vals.get(v)
            if r is not None:
                return r
            if v in instmap:
                r = Val('inst', instmap[v], instmap[v].ty)
            else:
                r = self.const(v)
            self_vals[v] = r
            return r

        for b in order:
            blk = blkmap[b]
            raws = blk.insts
            blk.insts = []
            for i, o in raws:
                o.op = OPC.get(Opcode(i), 'op%d' % Opcode(i))
                o.line = DebugLine(i)
                o.x = None
                o.text = None
                op = o.op
                if op == 'phi':
                    o.ops = [(val(IncVal(i, k)), blkmap[IncBlk(i, k)]) for k in range(CountIncoming(i))]
                elif op in ('call', 'invoke'):
                    cv = CalledValue(i)
                    o.ops = [val(Operand(i, k)) for k in range(NumArgOps(i))]
                    o.x = val(cv)
                    if op == 'invoke':
                        blk.succs = [blkmap[NormalDest(i)], blkmap[UnwindDest(i)]]
                elif op == 'br':
                    if IsConditional(i):
                        o.ops = [val(Condition(i))]
                        blk.succs = [blkmap[Succ(i, 0)], blkmap[Succ(i, 1)]]
                    else:
                        o.ops = []
                        blk.succs = [blkmap[Succ(i, 0)]]
                elif op == 'switch':
                    o.ops = [val(Operand(i, 0))]
                    cases = []
                    k = 2
                    blk.succs = [blkmap[VBB(Operand(i, 1))]]
                    while k < NumOps(i):
                        cases.append(val(Operand(i, k)).v)
                        blk.succs.append(blkmap[VBB(Operand(i, k + 1))])
                        k += 2
                    o.x = cases
                else:
                    o.ops = [val(Operand(i, k)) for k in range(NumOps(i))]
                    if op == 'icmp':
                        o.x = ICMP[ICmpPred(i)]
                    elif op == 'fcmp':
                        o.x = FCMP[FCmpPred(i)]
                    elif op == 'gep':
                        o.x = self.ty(GEPType(i))
                    elif op == 'alloca':
                        o.x = self.ty(AllocatedType(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        ix = Indices(i)
                        o.x = [ix[k] for k in range(NumIndices(i))]
                    if op in ('ret', 'unreachable', 'resume'):
                        blk.succs = []
                blk.insts.append(o)
        return f

    def const(self, v):
        t = self.ty(TypeOf(v))
        k = ValueKind(v)
        # LLVMValueKind: 3 Function 4 GlobalAlias 6 GlobalVariable 10 ConstantExpr 11 ConstantArray 12 ConstantStruct
        if IsUndef(v) or IsPoison(v):
            return Val('undef', None, t)
        if t.kind == 'int' and k == 18 or (t.kind == 'int' and re.match(rb'^i\d+ ', PrintValue(v)) and k not in (10,)):
            return Val('const', ConstIntZ(v) if t.w <= 64 else 0, t)
        if t.kind in ('F32', 'F64'):
            li = C.c_int()
            return Val('fconst', ConstReal(v, C.byref(li)), t)
        nm = self.name(v)
        if nm and nm in self.raw and self.raw[nm] == v:
            return Val('func', nm, t)
        if nm and nm in self.globals:
            return Val('global', nm, t)
        if t.kind == 'ptr' and IsNull(v):
            return Val('null', None, t)
        if NumOps(v) and t.kind == 'ptr':
            opc = OPC.get(ConstOpcode(v))
            if opc == 'gep':
                base = self.const(Operand(v, 0))
                idx = [self.const(Operand(v, j)) for j in range(1, NumOps(v))]
                st = self.ty(GEPType(v))
                off = 0
                cur = st
                for j, x in enumerate(idx):
                    xi = x.v
                    if xi >= 1 << 63:
                        xi -= 1 << 64
                    if x.ty.w == 32 and xi >= 1 << 31:
                        xi -= 1 << 32
                    if j == 0:
                        off += xi * cur.size
                    elif cur.kind == 'struct':
                        off += cur.fields[xi][0]
                        cur = cur.fields[xi][1]
                    else:
                        cur = cur.elem
                        off += xi * cur.size
                return Val('gepconst', base, t, off)
        if t.kind in ('struct', 'array'):
            return Val('constagg', v, t)
        al = re.search(rb' alias .*@([\w.$]+)\s*$', PrintValue(v))
        if al and al.group(1).decode() in self.raw:
            return Val('func', al.group(1).decode(), t)
        return Val('unknownconst', PrintValue(v).decode(), t)

    def global_read(self, name, off, ty):
        """constant initializer content at a byte offset"""
        g = self.globals[name]
        if not IsGlobalConstant(g):
            return None
        init = GetInitializer(g)
        if not init:
            return None
        t = self.ty(GlobalValueType(g))
        v = init
        while True:
            if t.kind == 'struct':
                for i, (o, ft) in enumerate(t.fields):
                    if o <= off < o + ft.size:
                        v = AggElem(v, i)
                        off -= o
                        t = ft
                        break
                else:
                    return None
            elif t.kind == 'array':
                i = off // t.elem.size
                if i >= t.n:
                    return None
                v = AggElem(v, i)
                off -= i * t.elem.size
                t = t.elem
            else:
                if off != 0:
                    return None
                return self.const(v)
