"""Decoder: LLVM bitcode (as emitted by clang from /repo's current sources) -> Python structures.
Uses libLLVM's own C API, so no hand-written IR parser is part of the trusted base."""
import ctypes as C, subprocess
from ctypes import c_void_p as P, c_char_p, c_uint, c_int, c_ulonglong, c_double, c_size_t, POINTER, byref

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so')
def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f
U = c_uint
ContextCreate=_f('LLVMContextCreate',P)
MemBuf=_f('LLVMCreateMemoryBufferWithContentsOfFile',c_int,c_char_p,POINTER(P),POINTER(c_char_p))
ParseIR=_f('LLVMParseIRInContext',c_int,P,P,POINTER(P),POINTER(c_char_p))
GetDL=_f('LLVMGetModuleDataLayout',P,P)
ABISize=_f('LLVMABISizeOfType',c_ulonglong,P,P)
StoreSize=_f('LLVMStoreSizeOfType',c_ulonglong,P,P)
ABIAlign=_f('LLVMABIAlignmentOfType',U,P,P)
OffsetOf=_f('LLVMOffsetOfElement',c_ulonglong,P,P,U)
FirstFn=_f('LLVMGetFirstFunction',P,P); NextFn=_f('LLVMGetNextFunction',P,P)
NamedFn=_f('LLVMGetNamedFunction',P,P,c_char_p)
FirstGV=_f('LLVMGetFirstGlobal',P,P); NextGV=_f('LLVMGetNextGlobal',P,P)
NamedGV=_f('LLVMGetNamedGlobal',P,P,c_char_p)
FirstAlias=_f('LLVMGetFirstGlobalAlias',P,P); NextAlias=_f('LLVMGetNextGlobalAlias',P,P)
Aliasee=_f('LLVMAliasGetAliasee',P,P)
ValueName=_f('LLVMGetValueName2',P,P,POINTER(c_size_t))
IsDecl=_f('LLVMIsDeclaration',c_int,P)
Init=_f('LLVMGetInitializer',P,P)
IsGlobalConst=_f('LLVMIsGlobalConstant',c_int,P)
GVType=_f('LLVMGlobalGetValueType',P,P)
FirstBB=_f('LLVMGetFirstBasicBlock',P,P); NextBB=_f('LLVMGetNextBasicBlock',P,P)
FirstI=_f('LLVMGetFirstInstruction',P,P); NextI=_f('LLVMGetNextInstruction',P,P)
BBAsV=_f('LLVMBasicBlockAsValue',P,P); VAsBB=_f('LLVMValueAsBasicBlock',P,P)
IsBB=_f('LLVMValueIsBasicBlock',c_int,P)
Opcode=_f('LLVMGetInstructionOpcode',c_int,P)
NumOp=_f('LLVMGetNumOperands',c_int,P); Op=_f('LLVMGetOperand',P,P,U)
ICmpP=_f('LLVMGetICmpPredicate',c_int,P); FCmpP=_f('LLVMGetFCmpPredicate',c_int,P)
TypeOf=_f('LLVMTypeOf',P,P); TypeKind=_f('LLVMGetTypeKind',c_int,P)
IntW=_f('LLVMGetIntTypeWidth',U,P)
NStruct=_f('LLVMCountStructElementTypes',U,P); StructAt=_f('LLVMStructGetTypeAtIndex',P,P,U)
ElemT=_f('LLVMGetElementType',P,P); ArrLen=_f('LLVMGetArrayLength2',c_ulonglong,P); VecLen=_f('LLVMGetVectorSize',U,P)
NumIdx=_f('LLVMGetNumIndices',U,P); Idx=_f('LLVMGetIndices',POINTER(U),P)
GEPT=_f('LLVMGetGEPSourceElementType',P,P)
AllocT=_f('LLVMGetAllocatedType',P,P)
Called=_f('LLVMGetCalledValue',P,P); NArg=_f('LLVMGetNumArgOperands',U,P)
NormalDest=_f('LLVMGetNormalDest',P,P); UnwindDest=_f('LLVMGetUnwindDest',P,P)
NClauses=_f('LLVMGetNumClauses',U,P); Clause=_f('LLVMGetClause',P,P,U); IsCleanup=_f('LLVMIsCleanup',c_int,P)
NInc=_f('LLVMCountIncoming',U,P); IncV=_f('LLVMGetIncomingValue',P,P,U); IncB=_f('LLVMGetIncomingBlock',P,P,U)
IsCond=_f('LLVMIsConditional',c_int,P); NSucc=_f('LLVMGetNumSuccessors',U,P); Succ=_f('LLVMGetSuccessor',P,P,U)
Exact=_f('LLVMGetExact',c_int,P)
NSW=_f('LLVMGetNSW',c_int,P)
ARMWOp=_f('LLVMGetAtomicRMWBinOp',c_int,P)
NParam=_f('LLVMCountParams',U,P); Param=_f('LLVMGetParam',P,P,U)
ValueKind=_f('LLVMGetValueKind',c_int,P)
ConstZ=_f('LLVMConstIntGetZExtValue',c_ulonglong,P)
ConstD=_f('LLVMConstRealGetDouble',c_double,P,POINTER(c_int))
ConstOpc=_f('LLVMGetConstOpcode',c_int,P)
AggElt=_f('LLVMGetAggregateElement',P,P,U)
IsCStr=_f('LLVMIsConstantString',c_int,P); AsStr=_f('LLVMGetAsString',P,P,POINTER(c_size_t))
PrintV=_f('LLVMPrintValueToString',P,P)
PrintT=_f('LLVMPrintTypeToString',P,P)
GetMD=_f('LLVMGetMetadata',P,P,U)
DebugLine=_f('LLVMGetDebugLocLine',U,P)
DebugFile=_f('LLVMGetDebugLocFilename',P,P,POINTER(U))
FnTypeVar=_f('LLVMIsFunctionVarArg',c_int,P)

OPC={1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
ICMP={32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FCMP={0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
ARMW=['xchg','add','sub','and','nand','or','xor','max','min','umax','umin','fadd','fsub','fmax','fmin']

class Ty:
    __slots__=('k','w','elems','offs','n','el','size','abi')
    # k: i f(loat) d(ouble) p(tr) s(truct) a(rray) v(oid) V(ector) x(other)
    def __repr__(s): return f'{s.k}{s.w or ""}'

class Fn:
    __slots__=('name','dem','params','blocks','order','decl','ref','ptypes','byname','ipdom','loops','nloops','lines','nregs','rety','rw')
class Instr:
    __slots__=('op','dst','ty','a','line','name')
    # a: op-specific tuple

class Module:
    def __init__(self, path):
        self.ctx=ContextCreate(); buf=P(); err=c_char_p()
        if MemBuf(path.encode(),byref(buf),byref(err)): raise RuntimeError(err.value)
        m=P()
        if ParseIR(self.ctx,buf,byref(m),byref(err)): raise RuntimeError(err.value)
        self.m=m; self.dl=GetDL(m); self.tys={}; self.fns={}; self.gvs={}; self.alias={}
        names=[]
        f=FirstFn(m)
        while f:
            n=self.vname(f); self.fns[n]=f; names.append(n); f=NextFn(f)
        g=FirstGV(m)
        while g: self.gvs[self.vname(g)]=g; g=NextGV(g)
        a=FirstAlias(m)
        while a: self.alias[self.vname(a)]=self.vname(Aliasee(a)); a=NextAlias(a)
        out=subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'],input='\n'.join(names+list(self.gvs)),capture_output=True,text=True).stdout.split('\n')
        allnames=names+list(self.gvs)
        self.dem=dict(zip(allnames,out))
        self.cache={}
    def vname(self,v):
        n=c_size_t(); p=ValueName(v,byref(n)); return C.string_at(p,n.value).decode('utf8','replace') if n.value else ''
    def ty(self,t):
        r=self.tys.get(t)
        if r is not None: return r
        k=TypeKind(t); r=Ty(); r.w=None; r.elems=r.offs=r.el=None; r.n=0; r.size=0; r.abi=1
        self.tys[t]=r
        if k==8: r.k='i'; r.w=IntW(t)
        elif k==2: r.k='f'; r.w=32
        elif k==3: r.k='f'; r.w=64
        elif k==4: r.k='f'; r.w=80
        elif k==12: r.k='p'; r.w=64
        elif k==0: r.k='v'
        elif k==10:
            r.k='s'; n=NStruct(t)
            try:
                r.elems=[self.ty(StructAt(t,i)) for i in range(n)]; r.offs=[OffsetOf(self.dl,t,i) for i in range(n)]
            except Exception: raise
        elif k==11: r.k='a'; r.n=ArrLen(t); r.el=self.ty(ElemT(t))
        elif k==13: r.k='V'; r.n=VecLen(t); r.el=self.ty(ElemT(t))
        else: r.k='x'
        if r.k not in 'vx':
            try: r.size=ABISize(self.dl,t); r.abi=ABIAlign(self.dl,t)
            except Exception: pass
        if r.k=='x' : r.size=0
        return r
    def fn(self,name):
        f=self.cache.get(name)
        if f is not None: return f
        ref=self.fns.get(name)
        if ref is None: return None
        f=self.decode(name,ref); self.cache[name]=f
        return f
    # operand encodings: ('r',slot) register; ('c',value,ty) constant to be materialised by the executor; ('k', int/float) immediate
    def operand(self,v,slots):
        s=slots.get(v)
        if s is not None: return ('r',s)
        return self.const(v)
    def const(self,v):
        k=ValueKind(v); t=self.ty(TypeOf(v))
        # LLVMValueKind: Argument0 BB1 MemUse2 MemDef3 MemPhi4 Function5 GAlias6 GIFunc7 GVar8 BlockAddress9 CExpr10 CArray11 CStruct12 CVector13 Undef14 CAggZero15 CDataArray16 CDataVector17 CInt18 CFP19 CPtrNull20 CTokenNone21 MDAsValue22 InlineAsm23 Instruction24 Poison25
        if k==18:
            if t.w<=64: return ('k',ConstZ(v)&((1<<t.w)-1))
            s=self.text(v).split()[-1]; return ('k',int(s)&((1<<t.w)-1))
        if k==19:
            l=c_int(); return ('k',float(ConstD(v,byref(l))))
        if k==20: return ('null',)
        if k in (14,25): return ('undef',t)
        if k==15: return ('zero',t)
        if k==5: return ('fn',self.vname(v))
        if k==8: return ('gv',self.vname(v))
        if k==6: return self.const(Aliasee(v))
        if k in (11,12,13): return ('agg',t,[self.const(Op(v,i)) for i in range(NumOp(v))])
        if k in (16,17):
            if IsCStr(v) or (t.el.k=='i' and t.el.w==8 and k==16):
                n=c_size_t(); p=AsStr(v,byref(n)); return ('bytes',t,C.string_at(p,n.value))
            return ('agg',t,[self.const(AggElt(v,i)) for i in range(t.n)])
        if k==10:
            o=OPC[ConstOpc(v)]
            if o=='gep': return ('cgep',self.ty(GEPT(v)),[self.const(Op(v,i)) for i in range(NumOp(v))])
            return ('cexpr',o,t,[self.const(Op(v,i)) for i in range(NumOp(v))],[self.ty(TypeOf(Op(v,i))) for i in range(NumOp(v))], ICMP[ICmpP(v)] if o=='icmp' else None)
        if k in (22,23,21): return ('meta',)
        raise NotImplementedError('const kind %d: %s'%(k,self.text(v)))
    def text(self,v): return C.string_at(PrintV(v)).decode('utf8','replace')
    def decode(self,name,ref):
        f=Fn(); f.name=name; f.dem=self.dem.get(name,name); f.decl=bool(IsDecl(ref)); f.ref=ref; f.ipdom=None; f.loops=None; f.nloops=None
        slots={}; f.params=[]; f.ptypes=[]
        for i in range(NParam(ref)):
            p=Param(ref,i); slots[p]=len(slots); f.params.append(slots[p]); f.ptypes.append(self.ty(TypeOf(p)))
        f.blocks=[]; f.byname={}
        if f.decl: return f
        bbs={}; raw=[]
        b=FirstBB(ref)
        while b:
            bbs[b]=len(raw); ins=[]; i=FirstI(b)
            while i:
                ins.append(i)
                if self.ty(TypeOf(i)).k!='v': slots[i]=len(slots)
                i=NextI(i)
            raw.append((b,ins)); b=NextBB(b)
        for b,ins in raw:
            lst=[]
            for i in ins:
                d=self.instr(i,slots,bbs)
                if d is not None: lst.append(d)
            f.blocks.append(lst)
        f.order=[self.vname(BBAsV(b)) for b,_ in raw]
        f.nregs=len(slots)
        f.rw=[None]*len(slots)
        for v,s in slots.items():
            t=self.ty(TypeOf(v)); f.rw[s]=t.w if t.k=='i' else None
        for v,s in slots.items():
            n=self.vname(v)
            if n: f.byname[n]=s
        return f
    def instr(self,i,slots,bbs):
        op=OPC[Opcode(i)]; r=Instr(); r.op=op; r.dst=slots.get(i); r.ty=self.ty(TypeOf(i)); r.name=None
        O=lambda k: self.operand(Op(i,k),slots)
        T=lambda k: self.ty(TypeOf(Op(i,k)))
        try: r.line=DebugLine(i)
        except Exception: r.line=0
        n=NumOp(i)
        if op=='ret': r.a=(O(0) if n else None,)
        elif op=='br':
            if IsCond(i): r.a=(O(0),bbs[Succ(i,0)],bbs[Succ(i,1)])
            else: r.a=(None,bbs[Succ(i,0)])
        elif op=='switch':
            r.a=(O(0),T(0).w,bbs[Succ(i,0)],[(O(2+2*k)[1],bbs[Succ(i,k+1)]) for k in range((n-2)//2)])
        elif op in('call','invoke'):
            cv=Called(i); na=NArg(i)
            callee=self.operand(cv,slots)
            if callee[0]=='fn' and callee[1].startswith('llvm.dbg'): return None
            args=[self.operand(Op(i,k),slots) for k in range(na)]
            at=[self.ty(TypeOf(Op(i,k))) for k in range(na)]
            dests=(bbs[NormalDest(i)],bbs[UnwindDest(i)]) if op=='invoke' else None
            r.a=(callee,args,at,dests)
        elif op=='landingpad':
            cl=[]
            for k in range(NClauses(i)):
                c=Clause(i,k); kind='filter' if self.ty(TypeOf(c)).k=='a' else 'catch'
                cl.append((kind,self.const(c)))
            r.a=(bool(IsCleanup(i)),cl)
        elif op=='alloca': r.a=(self.ty(AllocT(i)),O(0)); r.name=self.vname(i)
        elif op=='load': r.a=(O(0),)
        elif op=='store': r.a=(O(0),O(1),T(0))
        elif op=='gep': r.a=(self.ty(GEPT(i)),[O(k) for k in range(n)],[T(k) for k in range(n)])
        elif op=='icmp': r.a=(ICMP[ICmpP(i)],O(0),O(1),T(0))
        elif op=='fcmp': r.a=(FCMP[FCmpP(i)],O(0),O(1),T(0))
        elif op=='phi':
            r.a=({bbs[IncB(i,k)]:self.operand(IncV(i,k),slots) for k in range(NInc(i))},)
        elif op in('extractvalue','insertvalue'):
            p=Idx(i); ix=[p[k] for k in range(NumIdx(i))]
            r.a=(O(0),ix)+((O(1),) if op=='insertvalue' else ())
        elif op=='select': r.a=(O(0),O(1),O(2))
        elif op=='atomicrmw': r.a=(ARMW[ARMWOp(i)],O(0),O(1),T(1))
        elif op=='cmpxchg': r.a=(O(0),O(1),O(2),T(1))
        elif op in('unreachable','fence'): r.a=()
        elif op=='resume': r.a=(O(0),)
        else:
            r.a=tuple(O(k) for k in range(n))+(T(0),)
            if op in('sdiv','udiv','ashr','lshr'): r.a+=(bool(Exact(i)),)
        return r
