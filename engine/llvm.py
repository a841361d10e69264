"""Read LLVM bitcode through libLLVM's C API (ctypes) into plain Python objects.

Nothing is executed: the module is parsed and its functions, blocks and instructions
are copied into Python objects, which the analyses walk."""
import ctypes, ctypes.util, glob, os

def _load():
    for p in ('/usr/lib/llvm-18/lib/libLLVM-18.so', '/usr/lib/llvm-18/lib/libLLVM.so.18.1',
              '/usr/lib/x86_64-linux-gnu/libLLVM-18.so'):
        if os.path.exists(p):
            return ctypes.CDLL(p)
    for p in glob.glob('/usr/lib/**/libLLVM*18*', recursive=True):
        return ctypes.CDLL(p)
    raise RuntimeError('libLLVM 18 not found')

_L = _load()
P = ctypes.c_void_p
U = ctypes.c_uint
S = ctypes.c_size_t

def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f

CreateMemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', ctypes.c_int, ctypes.c_char_p, ctypes.POINTER(P), ctypes.POINTER(ctypes.c_char_p))
CtxCreate = _f('LLVMContextCreate', P)
ParseBC = _f('LLVMParseBitcodeInContext2', ctypes.c_int, P, P, ctypes.POINTER(P))
FirstFn = _f('LLVMGetFirstFunction', P, P)
NextFn = _f('LLVMGetNextFunction', P, P)
FirstGlob = _f('LLVMGetFirstGlobal', P, P)
NextGlob = _f('LLVMGetNextGlobal', P, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P)
NextI = _f('LLVMGetNextInstruction', P, P)
FirstParam = _f('LLVMGetFirstParam', P, P)
NextParam = _f('LLVMGetNextParam', P, P)
ValName = _f('LLVMGetValueName2', ctypes.c_char_p, P, ctypes.POINTER(S))
Opcode = _f('LLVMGetInstructionOpcode', ctypes.c_int, P)
ConstOpcode = _f('LLVMGetConstOpcode', ctypes.c_int, P)
NOps = _f('LLVMGetNumOperands', ctypes.c_int, P)
Op = _f('LLVMGetOperand', P, P, U)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', ctypes.c_int, P)
IntWidth = _f('LLVMGetIntTypeWidth', U, P)
ElemType = _f('LLVMGetElementType', P, P)
ArrLen = _f('LLVMGetArrayLength2', ctypes.c_uint64, P)
VecSize = _f('LLVMGetVectorSize', U, P)
StN = _f('LLVMCountStructElementTypes', U, P)
StAt = _f('LLVMStructGetTypeAtIndex', P, P, U)
StOpaque = _f('LLVMIsOpaqueStruct', ctypes.c_int, P)
ValKind = _f('LLVMGetValueKind', ctypes.c_int, P)
CIntS = _f('LLVMConstIntGetSExtValue', ctypes.c_longlong, P)
CRealD = _f('LLVMConstRealGetDouble', ctypes.c_double, P, ctypes.POINTER(ctypes.c_int))
ICmpP = _f('LLVMGetICmpPredicate', ctypes.c_int, P)
FCmpP = _f('LLVMGetFCmpPredicate', ctypes.c_int, P)
GepSrc = _f('LLVMGetGEPSourceElementType', P, P)
AllocaTy = _f('LLVMGetAllocatedType', P, P)
NIncoming = _f('LLVMCountIncoming', U, P)
IncVal = _f('LLVMGetIncomingValue', P, P, U)
IncBB = _f('LLVMGetIncomingBlock', P, P, U)
NSucc = _f('LLVMGetNumSuccessors', U, P)
Succ = _f('LLVMGetSuccessor', P, P, U)
Called = _f('LLVMGetCalledValue', P, P)
NArgs = _f('LLVMGetNumArgOperands', U, P)
NIdx = _f('LLVMGetNumIndices', U, P)
Idx = _f('LLVMGetIndices', ctypes.POINTER(U), P)
Term = _f('LLVMGetBasicBlockTerminator', P, P)
BBParent = _f('LLVMGetBasicBlockParent', P, P)
InstParent = _f('LLVMGetInstructionParent', P, P)
DbgLine = _f('LLVMGetDebugLocLine', U, P)
DbgFile = _f('LLVMGetDebugLocFilename', ctypes.c_char_p, P, ctypes.POINTER(U))
DbgDir = _f('LLVMGetDebugLocDirectory', ctypes.c_char_p, P, ctypes.POINTER(U))
GInit = _f('LLVMGetInitializer', P, P)
GConst = _f('LLVMIsGlobalConstant', ctypes.c_int, P)
GValTy = _f('LLVMGlobalGetValueType', P, P)
IsDecl = _f('LLVMIsDeclaration', ctypes.c_int, P)
DL = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', ctypes.c_ulonglong, P, P)
StoreSize = _f('LLVMStoreSizeOfType', ctypes.c_ulonglong, P, P)
ElOff = _f('LLVMOffsetOfElement', ctypes.c_ulonglong, P, P, U)
AggEl = _f('LLVMGetAggregateElement', P, P, U)
IsStr = _f('LLVMIsConstantString', ctypes.c_int, P)
GetStr = _f('LLVMGetAsString', P, P, ctypes.POINTER(S))
FnAttrCount = _f('LLVMGetAttributeCountAtIndex', U, P, U)
RMWop = _f('LLVMGetAtomicRMWBinOp', ctypes.c_int, P)
Volatile = _f('LLVMGetVolatile', ctypes.c_int, P)
ShuffleN = _f('LLVMGetNumMaskElements', U, P)
ShuffleM = _f('LLVMGetMaskValue', ctypes.c_int, P, U)
AttrEnum = _f('LLVMGetEnumAttributeAtIndex', P, P, U, U)
AttrKind = _f('LLVMGetEnumAttributeKindForName', U, ctypes.c_char_p, S)
CallAttrEnum = _f('LLVMGetCallSiteEnumAttribute', P, P, U, U)
_NORET = AttrKind(b'noreturn', 8)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',
 8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',
 32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'vaarg',50:'extractelement',
 51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',
 58:'resume',59:'landingpad',61:'cleanupret',62:'catchret',63:'catchpad',64:'cleanuppad',65:'catchswitch'}
IPRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPRED = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin',11:'fadd',12:'fsub'}

class Ty:
    __slots__ = ('k','w','n','el','els','offs','size','store')
    def __repr__(s):
        return {'i': f'i{s.w}','f': f'f{s.w}','arr': f'[{s.n} x {s.el}]','st':'{..}','vec':f'<{s.n} x {s.el}>'}.get(s.k, s.k)

class Fn:
    def __init__(s): s.blocks=[]; s.params=[]; s.name=''; s.decl=True; s.noret=False; s._ipdom=None; s._loops=None
    def __repr__(s): return f'<fn {s.name}>'
class BB:
    __slots__=('name','insts','fn','idx','preds','succs')
    def __repr__(s): return f'<bb {s.fn.name}:{s.idx}>'
class Inst:
    __slots__=('op','ty','ops','x','bb','loc','id','name')
    def __repr__(s): return f'%{s.id}={s.op} {s.ty} {s.ops} {s.x}'
class Glob:
    __slots__=('name','ty','init','const','mod')
    def __repr__(s): return f'@{s.name}'
class Arg:
    __slots__=('idx','ty','fn','name')
    def __repr__(s): return f'arg{s.idx}'
class CI:
    __slots__=('v','ty')
    def __init__(s,v,ty): s.v=v; s.ty=ty
    def __repr__(s): return f'{s.v}'
class CF:
    __slots__=('v','ty')
    def __init__(s,v,ty): s.v=v; s.ty=ty
    def __repr__(s): return f'{s.v}'
class CNull:
    __slots__=('ty',)
    def __init__(s,ty): s.ty=ty
    def __repr__(s): return 'null'
class CUndef:
    __slots__=('ty',)
    def __init__(s,ty): s.ty=ty
class CZero:
    __slots__=('ty',)
    def __init__(s,ty): s.ty=ty
class CAgg:
    __slots__=('ty','els')
    def __init__(s,ty,els): s.ty=ty; s.els=els
class CExpr:
    __slots__=('ty','op','ops','x')
    def __init__(s,ty,op,ops,x): s.ty=ty; s.op=op; s.ops=ops; s.x=x
class Other:
    __slots__=('ty','k')
    def __init__(s,ty,k): s.ty=ty; s.k=k

class Module:
    def __init__(self, path):
        self.path = path
        buf = P(); err = ctypes.c_char_p()
        if CreateMemBuf(path.encode(), ctypes.byref(buf), ctypes.byref(err)):
            raise RuntimeError('cannot read '+path)
        self.ctx = CtxCreate()
        m = P()
        if ParseBC(self.ctx, buf, ctypes.byref(m)):
            raise RuntimeError('cannot parse '+path)
        self.m = m
        self.dl = DL(m)
        self._ty = {}
        self._val = {}
        self.fns = {}
        self.globs = {}
        f = FirstFn(m)
        while f:
            fn = Fn(); fn.name = self._name(f); fn.decl = bool(IsDecl(f)); fn.mod = self; fn._h = f
            fn.noret = bool(AttrEnum(f, 0xFFFFFFFF, _NORET))
            fn.parsed = fn.decl
            p = FirstParam(f); i = 0
            while p:
                a = Arg(); a.idx=i; a.ty=self.ty(TypeOf(p)); a.fn=fn; a.name=self._name(p); fn.params.append(a)
                self._val[p]=a; i+=1; p=NextParam(p)
            self.fns[fn.name]=fn; self._val[f]=fn
            f = NextFn(f)
        g = FirstGlob(m)
        while g:
            o = Glob(); o.name=self._name(g); o.ty=self.ty(GValTy(g)); o.const=bool(GConst(g)); o.mod=self
            o.init = None
            self.globs[o.name]=o; self._val[g]=o
            i = GInit(g) if not IsDecl(g) else None
            o.init = ('h', i) if i else None
            g = NextGlob(g)

    def ginit(self, o):
        if o.init is None: return None
        if isinstance(o.init, tuple): o.init = self.val(o.init[1])
        return o.init

    def _name(self, v):
        n = S()
        r = ValName(v, ctypes.byref(n))
        return r.decode('utf8','replace') if r else ''

    def ty(self, h):
        t = self._ty.get(h)
        if t is not None: return t
        t = Ty(); self._ty[h]=t
        k = TypeKind(h)
        t.w=t.n=0; t.el=None; t.els=None; t.offs=None; t.size=0; t.store=0
        if k==0: t.k='void'; return t
        if k==1: t.k='f'; t.w=16
        elif k==2: t.k='f'; t.w=32
        elif k==3: t.k='f'; t.w=64
        elif k==4: t.k='f'; t.w=80
        elif k==5: t.k='f'; t.w=128
        elif k==8: t.k='i'; t.w=IntWidth(h)
        elif k==12: t.k='ptr'
        elif k==11: t.k='arr'; t.n=ArrLen(h); t.el=self.ty(ElemType(h))
        elif k==13: t.k='vec'; t.n=VecSize(h); t.el=self.ty(ElemType(h))
        elif k==10:
            t.k='st'
            if StOpaque(h): t.els=[]; t.offs=[]; return t
            n=StN(h); t.els=[self.ty(StAt(h,i)) for i in range(n)]
            t.offs=[ElOff(self.dl,h,i) for i in range(n)]
        else:
            t.k='other%d'%k; return t
        t.size=ABISize(self.dl,h); t.store=StoreSize(self.dl,h)
        return t

    def val(self, h):
        v = self._val.get(h)
        if v is not None: return v
        k = ValKind(h)
        t = self.ty(TypeOf(h))
        # LLVMValueKind
        if k==18 or (k==17 and False): v=None
        KIND = {0:'arg',1:'bb',2:'memuse',3:'memdef',4:'memphi',5:'fn',6:'alias',7:'ifunc',8:'glob',9:'blockaddr',10:'cexpr',11:'carr',12:'cst',13:'cvec',14:'undef',15:'zero',16:'cda',17:'cdv',18:'ci',19:'cf',20:'null',21:'toknone',22:'meta',23:'asm',24:'inst',25:'poison',26:'ctarget'}[k]
        if KIND=='ci': v=CI(CIntS(h),t)
        elif KIND=='cf':
            lossy=ctypes.c_int(); v=CF(CRealD(h,ctypes.byref(lossy)),t)
        elif KIND=='null': v=CNull(t)
        elif KIND in ('undef','poison'): v=CUndef(t)
        elif KIND=='zero': v=CZero(t)
        elif KIND in ('carr','cst','cvec','cda','cdv'):
            n = t.n if t.k in('arr','vec') else len(t.els)
            if KIND=='cda' and t.k=='arr' and t.el.k=='i' and t.el.w==8 and IsStr(h):
                ln=S(); p=GetStr(h,ctypes.byref(ln)); b=ctypes.string_at(p,ln.value)
                v=CAgg(t,[CI(c-256 if c>127 else c,t.el) for c in b])
            else:
                v=CAgg(t,[self.val(AggEl(h,i)) for i in range(n)])
        elif KIND=='cexpr':
            op=OPC[ConstOpcode(h)]
            x=None
            if op=='gep': x=self.ty(GepSrc(h))
            v=CExpr(t,op,[self.val(Op(h,i)) for i in range(NOps(h))],x)
        elif KIND=='alias':
            v=self.val(Op(h,0))
        else:
            v=Other(t,KIND)
        self._val[h]=v
        return v

    def parse(self, fn):
        """materialise the body of fn"""
        if fn.parsed: return fn
        fn.parsed=True
        bbs={}
        b=FirstBB(fn._h)
        while b:
            o=BB(); o.fn=fn; o.idx=len(fn.blocks); o.name=''; o.insts=[]; o.preds=[]; o.succs=[]
            fn.blocks.append(o); bbs[b]=o; b=NextBB(b)
        hs=[]
        cnt=0
        for bh,bo in bbs.items():
            i=FirstI(bh)
            while i:
                o=Inst(); o.op=OPC[Opcode(i)]; o.ty=self.ty(TypeOf(i)); o.bb=bo; o.id=cnt; cnt+=1; o.x=None; o.ops=[]; o.name=''
                ln=U(); line=DbgLine(i)
                if line:
                    f=DbgFile(i,ctypes.byref(ln)); 
                    f=f[:ln.value].decode() if f else '?'
                    if not f.startswith('/'):
                        d=DbgDir(i,ctypes.byref(ln)); d=d[:ln.value].decode() if d else ''
                        f=os.path.normpath(os.path.join(d,f))
                    o.loc=(f,line)
                else: o.loc=None
                self._val[i]=o
                bo.insts.append(o); hs.append((i,o))
                i=NextI(i)
        for h,o in hs:
            op=o.op
            if op=='phi':
                n=NIncoming(h)
                o.ops=[self.val(IncVal(h,i)) for i in range(n)]
                o.x=[bbs[IncBB(h,i)] for i in range(n)]
            elif op in('br','switch','invoke'):
                ns=NSucc(h); sc=[bbs[Succ(h,i)] for i in range(ns)]
                o.bb.succs=sc
                for s in sc:
                    if o.bb not in s.preds: s.preds.append(o.bb)
                if op=='br':
                    o.ops=[self.val(Op(h,0))] if ns==2 else []
                    o.x=sc
                elif op=='switch':
                    o.ops=[self.val(Op(h,0))]
                    vals=[self.val(Op(h,2+2*i)).v for i in range(ns-1)]
                    o.x=(sc,vals)  # sc[0] default
                else:
                    o.ops=[self.val(Op(h,i)) for i in range(NArgs(h))]
                    o.x=(self.val(Called(h)),sc)
            elif op=='call':
                o.ops=[self.val(Op(h,i)) for i in range(NArgs(h))]
                c=self.val(Called(h))
                o.x=(c, bool(CallAttrEnum(h,0xFFFFFFFF,_NORET)))
            else:
                o.ops=[self.val(Op(h,i)) for i in range(NOps(h))]
                if op=='icmp': o.x=IPRED[ICmpP(h)]
                elif op=='fcmp': o.x=FPRED[FCmpP(h)]
                elif op=='gep': o.x=self.ty(GepSrc(h))
                elif op=='alloca': o.x=self.ty(AllocaTy(h))
                elif op in('extractvalue','insertvalue'):
                    n=NIdx(h); p=Idx(h); o.x=[p[i] for i in range(n)]
                elif op=='atomicrmw': o.x=RMW.get(RMWop(h),'?')
                elif op=='shufflevector':
                    o.x=[ShuffleM(h,i) for i in range(ShuffleN(h))]
        return fn

# ---------------------------------------------------------------- CFG helpers
def ipdoms(fn):
    """immediate post-dominators; EXIT (None) collects returns. Blocks ending in unreachable
    are ignored, so that an abort side never hides a join."""
    if fn._ipdom is not None: return fn._ipdom
    EX='EXIT'
    succ={}
    for b in fn.blocks:
        t=b.insts[-1]
        if t.op=='ret': succ[b]=[EX]
        elif t.op in('unreachable','resume'): succ[b]=[]
        elif t.op=='invoke': succ[b]=[b.succs[0]]
        else: succ[b]=list(b.succs)
    # blocks that reach EXIT
    pred={}
    for b,ss in succ.items():
        for s in ss: pred.setdefault(s,[]).append(b)
    live=set(); st=[EX]
    while st:
        x=st.pop()
        for p in pred.get(x,[]):
            if p not in live: live.add(p); st.append(p)
    # postorder on reversed graph from EXIT
    order=[]; seen={EX}
    stack=[(EX,iter(pred.get(EX,[])))]
    while stack:
        n,it=stack[-1]
        for p in it:
            if p not in seen:
                seen.add(p); stack.append((p,iter(pred.get(p,[])))); break
        else:
            order.append(n); stack.pop()
    num={n:i for i,n in enumerate(order)}
    idom={EX:EX}
    ch=True
    rpo=[n for n in reversed(order) if n!=EX]
    while ch:
        ch=False
        for n in rpo:
            new=None
            for s in succ[n]:
                if s in idom and (s==EX or s in live):
                    if new is None: new=s
                    else:
                        a,b=new,s
                        while a!=b:
                            while num[a]<num[b]: a=idom[a]
                            while num[b]<num[a]: b=idom[b]
                        new=a
            if new is not None and idom.get(n)!=new: idom[n]=new; ch=True
    fn._ipdom=(idom,live)
    return fn._ipdom

def loops(fn):
    """natural loops: header -> set of blocks (innermost loop lookup by smallest set)"""
    if fn._loops is not None: return fn._loops
    bl=fn.blocks
    # dominators
    order=[]; seen={bl[0]}; stack=[(bl[0],iter(bl[0].succs))]
    while stack:
        n,it=stack[-1]
        for p in it:
            if p not in seen: seen.add(p); stack.append((p,iter(p.succs))); break
        else: order.append(n); stack.pop()
    num={n:i for i,n in enumerate(order)}
    idom={bl[0]:bl[0]}
    rpo=[n for n in reversed(order) if n is not bl[0]]
    ch=True
    while ch:
        ch=False
        for n in rpo:
            new=None
            for s in n.preds:
                if s in idom:
                    if new is None: new=s
                    else:
                        a,b=new,s
                        while a is not b:
                            while num[a]<num[b]: a=idom[a]
                            while num[b]<num[a]: b=idom[b]
                        new=a
            if new is not None and idom.get(n) is not new: idom[n]=new; ch=True
    def dom(a,b):
        while True:
            if a is b: return True
            if b is bl[0] or b not in idom: return False
            b=idom[b]
    res={}
    for b in rpo+[bl[0]]:
        for s in b.succs:
            if s in num and dom(s,b):
                body=res.setdefault(s,{s})
                st=[b]
                while st:
                    x=st.pop()
                    if x in body: continue
                    body.add(x); st.extend(x.preds)
    fn._loops=res
    fn._idom=idom
    return res
