"""Contracts (assumed, trusted) of functions whose bodies are not in /repo: runtime, libc, libstdc++ internals,
plus the specification primitives vc_*."""
import z3, re, struct
from . import sym as S
from . import llvmir as L
from .sym import Ptr, NULL, Unsupported, PathEnd, isint, bv, boolz, simp, norm, normb, M

H={}       # exact name -> handler(ex,st,ins,args,name)
PRE=[]     # (prefix on mangled, handler)
DEM=[]     # (regex on demangled, handler)
def h(*names):
    def d(f):
        for n in names: H[n]=f
        return f
    return d
def pre(*ps):
    def d(f):
        for p in ps: PRE.append((p,f))
        return f
    return d
def dem(*rx):
    def d(f):
        for r in rx: DEM.append((re.compile(r),f))
        return f
    return d
def fin(ex,st,ins,v=None):
    inv=ins.op=='invoke'
    ex.finish_call(st,ins,v)
    return [st] if inv else None

def setup(ex): ex.hcache={}
def lookup(ex,name):
    c=ex.hcache
    if name in c: return c[name]
    r=H.get(name)
    if r is None:
        for p,f in PRE:
            if name.startswith(p): r=f; break
    if r is None:
        d=ex.mod.dem.get(name,name)
        for rx,f in DEM:
            if rx.search(d): r=f; break
    if r is None:
        r=ex.contracts.get(name)
        if r is not None:
            stub=r
            def r(ex,st,ins,args,name,stub=stub):
                ex.trusted.add('contract used at call sites: '+ex.mod.dem.get(name,name))
                ex.push(st,ex.mod.fn(stub),args,ins); return None
    c[name]=r
    return r
def on_return(ex,st,f,v): pass
def on_unwind(ex,st,f):
    if f.tag=='thread':
        ex.fail(st,'safe.no_terminate','an exception escapes a thread'); raise PathEnd('terminate')

def cstr(ex,st,p):
    o=ex.obj(st,p.o); b=bytearray(); k=p.off
    while True:
        x=ex.cell_at(o,k)
        if x is None:
            if o.zero: break
            raise Unsupported('cstr')
        bs=ex.bytes_of(x[2],x[1],x[3])
        c=bs[k-x[0]]
        if not isint(c): raise Unsupported('symbolic string literal')
        if c==0: break
        b.append(c); k+=1
        if len(b)>4000: break
    return b.decode('utf8','replace')

# ------------------------------------------------------------------ specification primitives
@h('vc_any_bits')
def _(ex,st,ins,a,n):
    name=cstr(ex,st,a[0]); bits=a[1]
    v=ex.freshbv(name,bits); st.anys.append((name,bits,v))
    return fin(ex,st,ins,v if bits==64 else z3.ZeroExt(64-bits,v))
@h('vc_any_double')
def _(ex,st,ins,a,n):
    name=cstr(ex,st,a[0]); ex.fresh+=1
    v=z3.FP(f'{name}!{ex.fresh}',S.F64); st.anys.append((name,'d',v))
    return fin(ex,st,ins,v)
@h('vc_range','vc_pick')
def _(ex,st,ins,a,n):
    name=cstr(ex,st,a[0]); lo,hi=a[1],a[2]
    key=('any',len(st.frames),id(ins),len(st.anys))
    d=st.ghost.get('pend')
    if d is None or d[0]!=key:
        v=ex.freshbv(name,64); st.anys.append((name,64,v)); 
        c=z3.And(z3.UGE(v,bv(lo,64)),z3.ULE(v,bv(hi,64)))
        if isint(lo) and isint(hi) and lo==0: c=z3.ULE(v,hi)
        r,m=ex.check(st,c)
        if r==z3.unsat: raise PathEnd('assumed away')
        ex.add(st,c,m)
        st.ghost['pend']=(('any',len(st.frames),id(ins),len(st.anys)),v)
    v=st.ghost['pend'][1]
    if n=='vc_pick': v=ex.concretize(st,v,limit=300)
    st.ghost['pend']=None
    return fin(ex,st,ins,v)
@h('vc_havoc_bits')    # unconstrained value that is not an input (never replayed)
def _(ex,st,ins,a,n):
    v=ex.freshbv('havoc',a[1]); return fin(ex,st,ins,v if a[1]==64 else z3.ZeroExt(64-a[1],v))
@h('vc_assume')
def _(ex,st,ins,a,n):
    c=a[0]
    if isint(c):
        if not c: raise PathEnd('assumed away')
    else:
        sc=simp(c)
        if z3.is_false(sc): raise PathEnd('assumed away')
        if not z3.is_true(sc):
            r,m=ex.check(st,c)
            if r==z3.unsat: raise PathEnd('assumed away')
            ex.add(st,c,m)
    return fin(ex,st,ins)
@h('vc_ensure')
def _(ex,st,ins,a,n):
    ex.prove(st,cstr(ex,st,a[0]),a[1],'','ensure')
    return fin(ex,st,ins)
@h('vc_cover')
def _(ex,st,ins,a,n):
    ex.covers[cstr(ex,st,a[0])]=ex.covers.get(cstr(ex,st,a[0]),0)+1
    return fin(ex,st,ins)
@h('vc_symbolic')
def _(ex,st,ins,a,n): return fin(ex,st,ins,1)
@h('vc_merge')
def _(ex,st,ins,a,n):
    st.merge=a[0]; return fin(ex,st,ins)
@h('vc_ite')
def _(ex,st,ins,a,n):
    c=ex.known(st,a[0])
    if isint(c): return fin(ex,st,ins,a[1] if c else a[2])
    return fin(ex,st,ins,simp(z3.If(c,bv(a[1],64),bv(a[2],64))))
@h('vc_concretize')
def _(ex,st,ins,a,n):
    return fin(ex,st,ins,ex.concretize(st,a[0],limit=300))
@h('vc_bounded')
def _(ex,st,ins,a,n):
    ex.bounded=cstr(ex,st,a[0]); return fin(ex,st,ins)
@h('vc_branch')
def _(ex,st,ins,a,n):
    return fin(ex,st,ins,int(ex.choose(st,a[0])))
@h('vc_stub')
def _(ex,st,ins,a,n):
    real=ex.mod.alias.get(ex.fobj_name[a[0].o],ex.fobj_name[a[0].o]); tgt=ex.fobj_name[a[1].o]
    d=dict(st.ghost.get('stubs') or {}); d[real]=(tgt,a[2]); st.ghost['stubs']=d
    return fin(ex,st,ins)
@h('vc_uf')
def _(ex,st,ins,a,n):
    f=z3.Function('uf!'+cstr(ex,st,a[0]),z3.BitVecSort(64),z3.BitVecSort(64),z3.BitVecSort(64))
    return fin(ex,st,ins,f(bv(a[1],64),bv(a[2],64)))
@h('vc_trace')
def _(ex,st,ins,a,n):
    if ex.opts.get('trace'): print('trace',cstr(ex,st,a[0]),a[1] if isint(a[1]) else simp(a[1]))
    return fin(ex,st,ins)
# wide exact arithmetic (128 bit) relations used by specifications
def w128(x,s): return z3.SignExt(64,bv(x,64)) if s else z3.ZeroExt(64,bv(x,64))

# ------------------------------------------------------------------ intrinsics
@pre('llvm.lifetime','llvm.dbg','llvm.assume','llvm.experimental.noalias','llvm.stacksave','llvm.stackrestore','llvm.prefetch','llvm.donothing','llvm.invariant')
def _(ex,st,ins,a,n): return fin(ex,st,ins,NULL)
@pre('llvm.memcpy','llvm.memmove')
def _(ex,st,ins,a,n):
    k=length(ex,st,a[2],a[0],a[1]); ex.memcpy(st,a[0],a[1],k); return fin(ex,st,ins)
@h('memcpy','memmove')
def _(ex,st,ins,a,n):
    k=length(ex,st,a[2],a[0],a[1]); ex.memcpy(st,a[0],a[1],k); return fin(ex,st,ins,a[0])
def length(ex,st,k,*ps):
    # lengths stay symbolic for regions
    if (not isint(k) or k%8==0 and k) and st.ghost.get('regions') and all(p.o>0 and ex.obj(st,p.o).kind=='region' for p in ps): return simp(bv(k,64))
    return ex.concretize(st,k,limit=80)
@pre('llvm.memset')
def _(ex,st,ins,a,n):
    ex.memset(st,a[0],a[1],ex.concretize(st,a[2],limit=80)); return fin(ex,st,ins)
@h('memset')
def _(ex,st,ins,a,n):
    ex.memset(st,a[0],a[1]&255 if isint(a[1]) else z3.Extract(7,0,a[1]),ex.concretize(st,a[2],limit=80)); return fin(ex,st,ins,a[0])
@h('llvm.trap','abort','_ZSt9terminatev','exit')
def _(ex,st,ins,a,n):
    ex.fail(st,'safe.no_abort','call of %s'%n); raise PathEnd('abort')
@pre('llvm.expect','llvm.launder','llvm.strip.invariant','llvm.ptr.annotation','llvm.ssa.copy','llvm.is.constant','llvm.threadlocal.address')
def _(ex,st,ins,a,n):
    if n.startswith('llvm.is.constant'): return fin(ex,st,ins,0)
    return fin(ex,st,ins,a[0])
@pre('llvm.objectsize')
def _(ex,st,ins,a,n): return fin(ex,st,ins,M(64))
@pre('llvm.eh.typeid.for')
def _(ex,st,ins,a,n):
    p=a[0]
    if p.o==0: return fin(ex,st,ins,1)
    for nm,i in ex.gobj.items():
        if i==p.o: return fin(ex,st,ins,ex.typeid(nm))
    raise Unsupported('typeid')
@pre('llvm.umin','llvm.umax','llvm.smin','llvm.smax','llvm.abs','llvm.ctpop','llvm.ctlz','llvm.cttz','llvm.bswap','llvm.usub.sat','llvm.uadd.sat','llvm.fshl','llvm.fshr')
def _(ex,st,ins,a,n):
    w=ins.ty.w; k=n.split('.')[1]
    if k in('umin','umax','smin','smax'):
        c=ex.icmp(st,{'umin':'ult','umax':'ugt','smin':'slt','smax':'sgt'}[k],a[0],a[1],ins.ty)
        if isint(c): r=a[0] if c else a[1]
        else: r=z3.If(c,bv(a[0],w),bv(a[1],w))
    elif k=='abs':
        c=ex.icmp(st,'slt',a[0],0,ins.ty); ng=ex.arith('sub',0,a[0],w)
        r=(ng if c else a[0]) if isint(c) else z3.If(c,bv(ng,w),bv(a[0],w))
    elif k in('ctpop','ctlz','cttz'):
        if not isint(a[0]):
            x=a[0]
            if k=='ctpop':
                r=z3.BitVecVal(0,w)
                for i in range(w): r=r+z3.ZeroExt(w-1,z3.Extract(i,i,x))
            elif k=='ctlz':
                r=z3.BitVecVal(w,w)
                for i in range(w): r=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(w-1-i,w),r)
            else:
                r=z3.BitVecVal(w,w)
                for i in reversed(range(w)): r=z3.If(z3.Extract(i,i,x)==1,z3.BitVecVal(i,w),r)
        elif k=='ctpop': r=bin(a[0]).count('1')
        elif k=='ctlz': r=w-a[0].bit_length()
        else: r=w if a[0]==0 else (a[0]&-a[0]).bit_length()-1
    elif k in('fshl','fshr') and all(isint(x) for x in a):
        s=a[2]%w; x=(a[0]<<w)|a[1]
        r=((x<<s)>>w)&M(w) if k=='fshl' else (x>>s)&M(w)
    else: raise Unsupported(n)
    return fin(ex,st,ins,r)
@pre('llvm.uadd.with.overflow','llvm.usub.with.overflow','llvm.umul.with.overflow','llvm.sadd.with.overflow','llvm.ssub.with.overflow','llvm.smul.with.overflow')
def _(ex,st,ins,a,n):
    k=n.split('.')[1]; w=ins.ty.elems[0].w; op=k[1:]; sg=k[0]=='s'
    r=ex.arith(op,a[0],a[1],w)
    if isint(a[0]) and isint(a[1]):
        x,y=(S.sgn(a[0],w),S.sgn(a[1],w)) if sg else (a[0],a[1])
        t={'add':x+y,'sub':x-y,'mul':x*y}[op]
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if sg else (0,M(w))
        o=int(not lo<=t<=hi)
    else:
        x,y=bv(a[0],w),bv(a[1],w); e=w if op=='mul' else 2
        ext=(lambda v: z3.SignExt(e,v)) if sg else (lambda v: z3.ZeroExt(e,v))
        t={'add':ext(x)+ext(y),'sub':ext(x)-ext(y),'mul':ext(x)*ext(y)}[op]
        o=S.nsimp(t!=ext(bv(r,w)))
    return fin(ex,st,ins,[r,o])
@pre('llvm.floor','llvm.ceil','llvm.fabs','llvm.trunc.','llvm.sqrt','llvm.rint','llvm.nearbyint','llvm.round.','llvm.fmuladd')
def _(ex,st,ins,a,n): return fin(ex,st,ins,fpfun(ex,n.split('.')[1],a))
@h('floor','ceil','fabs','trunc','sqrt','rint','nearbyint','round')
def _(ex,st,ins,a,n): return fin(ex,st,ins,fpfun(ex,n,a))
@h('llround','lround','llrint')
def _(ex,st,ins,a,n):
    v=fpfun(ex,'round' if n!='llrint' else 'rint',a)
    if isinstance(v,float): return fin(ex,st,ins,int(v)&M(64))
    return fin(ex,st,ins,z3.fpToSBV(S.RTZ,v,z3.BitVecSort(64)))
def fpfun(ex,k,a):
    import math
    x=a[0]
    if k=='fmuladd': return z3.fpAdd(S.RNE,z3.fpMul(S.RNE,S.fpv(a[0]),S.fpv(a[1])),S.fpv(a[2])) if not all(isinstance(t,float) for t in a) else a[0]*a[1]+a[2]
    if isinstance(x,float):
        if k=='floor': return float(math.floor(x))
        if k=='ceil': return float(math.ceil(x))
        if k=='fabs': return abs(x)
        if k=='trunc': return float(math.trunc(x))
        if k=='sqrt': return math.sqrt(x)
        if k=='round': return float(math.floor(abs(x)+0.5))*(1 if x>=0 else -1)
        return float(round(x))
    if k=='floor': return z3.fpRoundToIntegral(z3.RTN(),x)
    if k=='ceil': return z3.fpRoundToIntegral(z3.RTP(),x)
    if k=='trunc': return z3.fpRoundToIntegral(S.RTZ,x)
    if k=='round': return z3.fpRoundToIntegral(z3.RNA(),x)
    if k in('rint','nearbyint'): return z3.fpRoundToIntegral(S.RNE,x)
    if k=='fabs': return z3.fpAbs(x)
    if k=='sqrt': return z3.fpSqrt(S.RNE,x)
    raise Unsupported(k)
# ------------------------------------------------------------------ memory management
@h('_Znwm','_Znam','malloc','_ZnwmRKSt9nothrow_t','_ZnamRKSt9nothrow_t','_ZnamSt11align_val_t','_ZnwmSt11align_val_t')
def _(ex,st,ins,a,n):
    if not isint(a[0]) and st.ghost.get('regions') and not z3.is_bv_value(simp(a[0])):
        return fin(ex,st,ins,ex.region(st,simp(a[0]),'allocation in %s'%st.frames[-1].fn.dem[:80]))
    k=ex.concretize(st,a[0],limit=80)
    return fin(ex,st,ins,ex.alloc(st,k,'allocation in %s'%st.frames[-1].fn.dem[:80]))
@h('_ZdlPv','_ZdaPv','_ZdlPvm','_ZdaPvm','free','_ZdlPvSt11align_val_t','_ZdlPvmSt11align_val_t')
def _(ex,st,ins,a,n):
    p=a[0]
    if p.o!=0:
        o=ex.obj(st,p.o)
        if o is None or p.o<0: ex.fail(st,'safe.invalid_free','free of invalid pointer'); raise PathEnd('bad free')
        if not o.alive: ex.fail(st,'safe.double_free','double free of '+o.name); raise PathEnd('bad free')
        w=ex.wobj(st,p.o); w.alive=False; w.cells={}
    return fin(ex,st,ins)
@h('strlen')
def _(ex,st,ins,a,n):
    p=a[0]; k=0; w=L.Ty(); w.k='i'; w.w=8; w.size=1
    while True:
        c=ex.load(st,Ptr(p.o,p.off+k),w)
        if isint(c):
            if c==0: break
        elif ex.choose(st,c==0): break
        k+=1
        if k>4096: raise Unsupported('strlen')
    return fin(ex,st,ins,k)
@h('vc_region')     # an array of any contents with the given number of 8-byte elements
def _(ex,st,ins,a,n):
    return fin(ex,st,ins,ex.region(st,simp(bv(a[1],64)<<3),cstr(ex,st,a[0])))
@dem(r'^boost::serialization::void_cast_detail::void_caster const& boost::serialization::void_cast_register<')
def _(ex,st,ins,a,n):     # registers how pointers to the two classes are converted: no effect on any object
    ex.trusted.add('boost: registering a conversion between classes has no effect on verified state')
    return fin(ex,st,ins,ex.alloc(st,64,'void_caster'))
@h('vc_text')    # from here on, the text of string streams is tracked
def _(ex,st,ins,a,n):
    st.ghost['text']=True; return fin(ex,st,ins)
@h('vc_any_floats')    # from here on, floating-point results are arbitrary
def _(ex,st,ins,a,n):
    st.ghost['floats']=True; return fin(ex,st,ins)
@h('vc_unbounded')    # from here on, loops are generalised
def _(ex,st,ins,a,n):
    st.ghost['regions']=True; return fin(ex,st,ins)
@h('vc_invariant')
def _(ex,st,ins,a,n):
    c=a[1]
    if isinstance(c,int) and c: return fin(ex,st,ins)
    name=cstr(ex,st,a[0])
    if ex.specs and ex.specs[-1][1]==len(st.frames):
        if ex.specs[-1][2]=='check':
            rec=ex.obl.setdefault(name,dict(instances=0,discharged=0,backends={},time=0.0,kind='loop',failed=0))
            if not ex.loopmod.strict(ex,st,S.boolz(c),rec): raise ex.loopmod.SpecFail(name)
        ex.add(st,S.boolz(c)); return fin(ex,st,ins)
    ex.prove(st,name,c); return fin(ex,st,ins)
@h('vc_lcp')
def _(ex,st,ins,a,n):
    return fin(ex,st,ins,ex.region_lcp(st,a[0],a[1],a[2],a[3]))
@h('memcmp','bcmp')
def _(ex,st,ins,a,n):
    if (not isint(a[2]) or a[2]%8==0 and a[2]) and all(p.o>0 and ex.obj(st,p.o).kind=='region' for p in a[:2]):
        eq=ex.region_eq(st,a[0],a[1],simp(bv(a[2],64))); v=ex.freshbv('memcmp',32)
        ex.add(st,eq==(v==0)); ex.trusted.add('memcmp is zero exactly when all elements are equal')
        return fin(ex,st,ins,v)
    k=ex.concretize(st,a[2],limit=80); w=L.Ty(); w.k='i'; w.w=8; w.size=1
    r=0
    for j in reversed(range(k)):
        x=ex.load(st,ex.padd(a[0],j),w); y=ex.load(st,ex.padd(a[1],j),w)
        if isint(x) and isint(y):
            if x!=y: r=1 if x>y else M(32)
        else:
            x,y=bv(x,8),bv(y,8)
            r=z3.If(x==y,bv(r,32),z3.If(z3.UGT(x,y),z3.BitVecVal(1,32),z3.BitVecVal(M(32),32)))
    return fin(ex,st,ins,r if isint(r) else norm(simp(r),32))
@h('memchr')
def _(ex,st,ins,a,n):
    k=ex.concretize(st,a[2],limit=80); w=L.Ty(); w.k='i'; w.w=8; w.size=1
    c=a[1]&255 if isint(a[1]) else z3.Extract(7,0,a[1])
    for j in range(k):
        x=ex.load(st,ex.padd(a[0],j),w)
        if ex.choose(st,ex.icmp(st,'eq',x,c,w)): return fin(ex,st,ins,ex.padd(a[0],j))
    return fin(ex,st,ins,NULL)
# ctype in the C locale
def ctype(ranges):
    def f(ex,st,ins,a,n):
        c=a[0]
        if isint(c): return fin(ex,st,ins,int(any(lo<=c<=hi for lo,hi in ranges)))
        e=z3.Or(*[z3.And(z3.UGE(c,lo),z3.ULE(c,hi)) for lo,hi in ranges])
        return fin(ex,st,ins,z3.If(e,z3.BitVecVal(1,32),z3.BitVecVal(0,32)))
    return f
H['isdigit']=ctype([(48,57)]); H['isupper']=ctype([(65,90)]); H['islower']=ctype([(97,122)])
H['isalpha']=ctype([(65,90),(97,122)]); H['isalnum']=ctype([(48,57),(65,90),(97,122)]); H['isspace']=ctype([(9,13),(32,32)])
@h('toupper','tolower')
def _(ex,st,ins,a,n):
    c=a[0]; lo,hi,d=(97,122,-32) if n=='toupper' else (65,90,32)
    if isint(c): return fin(ex,st,ins,(c+d)&M(32) if lo<=c<=hi else c)
    return fin(ex,st,ins,z3.If(z3.And(z3.UGE(c,lo),z3.ULE(c,hi)),c+d,c))
# ------------------------------------------------------------------ exceptions
def mkexc(ex,st,size=64):
    p=ex.alloc(st,size,'exception object'); return p
@h('__cxa_allocate_exception')
def _(ex,st,ins,a,n): return fin(ex,st,ins,mkexc(ex,st,a[0]))
@h('__cxa_free_exception')
def _(ex,st,ins,a,n): return fin(ex,st,ins)
@h('__cxa_throw')
def _(ex,st,ins,a,n):
    ti=None
    for nm,i in ex.gobj.items():
        if i==a[1].o: ti=nm; break
    st.exct[a[0].o]=ti
    ex.throw(st,a[0],ti); return [st]
def thrower(ti):
    def f(ex,st,ins,a,n):
        p=mkexc(ex,st); st.exct[p.o]=ti; ex.throw(st,p,ti); return [st]
    return f
for _n,_t in S.THROWERS.items(): H[_n]=thrower(_t)
@h('__cxa_begin_catch')
def _(ex,st,ins,a,n):
    st.caught.append(a[0]); adj=st.ghost.get('adj%d'%a[0].o,0)
    return fin(ex,st,ins,ex.padd(a[0],adj))
@h('__cxa_get_exception_ptr')
def _(ex,st,ins,a,n): return fin(ex,st,ins,ex.padd(a[0],st.ghost.get('adj%d'%a[0].o,0)))
@h('__cxa_end_catch')
def _(ex,st,ins,a,n):
    if st.caught: st.caught.pop()
    return fin(ex,st,ins)
@h('__cxa_rethrow')
def _(ex,st,ins,a,n):
    e=st.caught[-1]; ex.throw(st,e,st.exct[e.o]); return [st]
@h('__clang_call_terminate','__cxa_pure_virtual','__cxa_call_unexpected')
def _(ex,st,ins,a,n):
    ex.fail(st,'safe.no_terminate',n); raise PathEnd('terminate')
@h('__cxa_throw_bad_array_new_length')
def _(ex,st,ins,a,n):
    p=mkexc(ex,st); st.exct[p.o]='_ZTISt20bad_array_new_length'; ex.throw(st,p,'_ZTISt20bad_array_new_length'); return [st]
@h('_ZSt18uncaught_exceptionv','_ZSt19uncaught_exceptionsv')
def _(ex,st,ins,a,n): return fin(ex,st,ins,0)
@h('__dynamic_cast')
def _(ex,st,ins,a,n):
    # source static type a[1], destination a[2]; dynamic type from the vtable
    p=a[0]
    w=L.Ty(); w.k='p'; w.w=64; w.size=8
    vt=ex.load(st,p,w); 
    off=ex.load(st,ex.padd(vt,-16),I64); ti=ex.load(st,ex.padd(vt,-8),w)
    if isinstance(off,Ptr): off=ex.ptr2int(off)
    off=S.sgn(off,64)
    full=ex.padd(p,off)
    name={i:nm for nm,i in ex.gobj.items()}
    dyn=name[ti.o]; dst=name[a[2].o]
    bs=[o for t,o in ex.bases_of(st,full,dyn,I64,w) if t==dst]
    return fin(ex,st,ins,bs[0] if bs else NULL)
I64=L.Ty(); I64.k='i'; I64.w=64; I64.size=8
I8=L.Ty(); I8.k='i'; I8.w=8; I8.size=1
@h('__cxa_demangle')
def _(ex,st,ins,a,n):
    # no demangled name available: callers fall back to the mangled one
    if isinstance(a[3],Ptr) and a[3]!=NULL:
        I=L.Ty(); I.k='i'; I.w=32; I.size=4
        ex.store(st,a[3],0xffffffff,I)
    return fin(ex,st,ins,NULL)
@h('__assert_fail')
def _(ex,st,ins,a,n):
    try: msg=cstr(ex,st,a[0])
    except Exception: msg='?'
    ex.fail(st,'safe.assertion','assertion `%s` fails'%msg); raise PathEnd('assert')
@h('_ZSt21__glibcxx_assert_failPKciS0_S0_')
def _(ex,st,ins,a,n):
    ex.fail(st,'safe.assertion','libstdc++ assertion'); raise PathEnd('assert')
@h('__cxa_atexit','__cxa_guard_release','__cxa_guard_abort','pthread_mutex_lock','pthread_mutex_unlock','sched_yield')
def _(ex,st,ins,a,n): return fin(ex,st,ins,0)
@h('__cxa_guard_acquire')
def _(ex,st,ins,a,n):
    g=a[0]; v=ex.load(st,g,I8)
    if isint(v) and v: return fin(ex,st,ins,0)
    ex.store(st,g,1,I8); return fin(ex,st,ins,1)
# ------------------------------------------------------------------ std exceptions and streams: opaque
@dem(r'^std::(logic_error|runtime_error|invalid_argument|domain_error|length_error|out_of_range|range_error|overflow_error|underflow_error|exception|bad_alloc|bad_cast|bad_function_call|bad_any_cast|bad_variant_access|bad_optional_access)::')
def _(ex,st,ins,a,n):
    d=ex.mod.dem.get(n,n)
    fn=ex.mod.fn(n)
    if fn is not None and not fn.decl:
        if '::what()' not in d and '::~' not in d:
            ex.push(st,fn,a,ins); return None
    if '::what()' in d: return fin(ex,st,ins,NULL)
    return fin(ex,st,ins)
@dem(r'^std::(ios_base|locale|basic_ios<|basic_ostream<|basic_istream<|basic_iostream<|basic_streambuf<|__cxx11::basic_(o|i)?stringstream<|__cxx11::basic_stringbuf<|basic_(o|i)?fstream<|basic_filebuf<|ctype<|num_put<|num_get<)',
     r'^(std::basic_ostream<.*>& )?std::(operator<<|endl|flush|setw|setprecision|setfill)',r'std::basic_ostream<char.*operator<<',r'^std::(basic_istream<.*>& std::)?operator>> ?<.*basic_istream',r'^std::[io]stream::',r'^(std::istream& )?std::operator>>.*istream',r'operator<<\(std::ostream&, ',r'operator<< ?<[^(]*>\(std::ostream&, ')
def _(ex,st,ins,a,n):
    if 'text' in st.ghost:
        from . import text
        done,v=text.handle(ex,st,ins,a,ex.mod.dem.get(n,n))
        if done:
            ex.trusted.add('string streams: an integer extracted where an integer was inserted is that integer (library)')
            return fin(ex,st,ins,v)
    ex.trusted.add('iostreams are opaque: formatting has no effect on verified state')
    if ins.ty.k=='v':
        d=ex.mod.dem.get(n,n)
        if 'stringstream' in d and '::str(' in d and a: mkstring(ex,st,a[0],b'?')
        return fin(ex,st,ins)
    if ins.ty.k=='p': return fin(ex,st,ins,a[0])
    return fin(ex,st,ins,ex.freshty('io',ins.ty))
@dem(r'^(constexpr )?(esl::data::channel )?(esl::data::channel& )?esl::data::(log<|channel::|output_base::|stream::|terminal::|null_ostream)')
def _(ex,st,ins,a,n):
    ex.trusted.add('logging (esl::data::log, channel) is opaque: writing a log line has no effect on verified state')
    if ins.ty.k=='v': return fin(ex,st,ins)
    if ins.ty.k=='p': return fin(ex,st,ins,a[0])
    return fin(ex,st,ins,ex.freshty('log',ins.ty))
def mkstring(ex,st,p,b):
    buf=ex.padd(p,16)
    P=L.Ty(); P.k='p'; P.w=64; P.size=8
    ex.store(st,p,buf,P); ex.store(st,ex.padd(p,8),len(b),I64)
    for i,c in enumerate(b+b'\0'): ex.store(st,ex.padd(buf,i),c,I8)
@dem(r'^std::(__cxx11::)?to_string\(',r'^std::__cxx11::basic_string<char.*> (std::|boost::)(to_string|lexical_cast)')
def _(ex,st,ins,a,n):
    ex.trusted.add('std::to_string yields an unspecified text (only used in messages)')
    mkstring(ex,st,a[0],b'?'); return fin(ex,st,ins)
@h('_ZNSt8ios_base4InitC1Ev','_ZNSt8ios_base4InitD1Ev')
def _(ex,st,ins,a,n): return fin(ex,st,ins)
# ------------------------------------------------------------------ libstdc++ red-black tree primitives: any ordered tree shape is allowed
P_=L.Ty(); P_.k='p'; P_.w=64; P_.size=8
def nd(ex,st,p,k): return ex.load(st,ex.padd(p,k),P_)     # 0 color 8 parent 16 left 24 right
def peq(a,b): return a.o==b.o and a.off==b.off
def incr(ex,st,x):
    r=nd(ex,st,x,24)
    if r.o:
        x=r
        while True:
            l=nd(ex,st,x,16)
            if not l.o: return x
            x=l
    y=nd(ex,st,x,8)
    while peq(x,nd(ex,st,y,24)): x=y; y=nd(ex,st,y,8)
    if not peq(nd(ex,st,x,24),y): x=y
    return x
I32=L.Ty(); I32.k='i'; I32.w=32; I32.size=4
def decr(ex,st,x):
    pp=nd(ex,st,nd(ex,st,x,8),8)
    if ex.load(st,x,I32)==0 and peq(pp,x): return nd(ex,st,x,24)
    l=nd(ex,st,x,16)
    if l.o:
        y=l
        while True:
            r=nd(ex,st,y,24)
            if not r.o: return y
            y=r
    y=nd(ex,st,x,8)
    while peq(x,nd(ex,st,y,16)): x=y; y=nd(ex,st,y,8)
    return y
@h('_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base','_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base')
def _(ex,st,ins,a,n): return fin(ex,st,ins,incr(ex,st,a[0]))
@h('_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base','_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base')
def _(ex,st,ins,a,n): return fin(ex,st,ins,decr(ex,st,a[0]))
@h('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def _(ex,st,ins,a,n):
    left,x,p,hd=a
    sp=lambda q,k,v: ex.store(st,ex.padd(q,k),v,P_)
    sp(x,8,p); sp(x,16,NULL); sp(x,24,NULL); ex.store(st,x,1,I32)   # black: header alone is red
    left=ex.choose(st,left) if not isint(left) else left
    if left:
        sp(p,16,x)
        if peq(p,hd): sp(hd,8,x); sp(hd,24,x)
        elif peq(p,nd(ex,st,hd,16)): sp(hd,16,x)
    else:
        sp(p,24,x)
        if peq(p,nd(ex,st,hd,24)): sp(hd,24,x)
    return fin(ex,st,ins)
@h('_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_')
def _(ex,st,ins,a,n):
    z,hd=a
    sp=lambda q,k,v: ex.store(st,ex.padd(q,k),v,P_)
    # leftmost / rightmost
    if peq(nd(ex,st,hd,16),z):
        nx=incr(ex,st,z); newl=nx
    else: newl=None
    if peq(nd(ex,st,hd,24),z):
        newr=decr(ex,st,z) if not (peq(nd(ex,st,hd,16),z)) else hd
    else: newr=None
    def replace(u,v):
        par=nd(ex,st,u,8)
        if peq(par,hd) and peq(nd(ex,st,hd,8),u): sp(hd,8,v)
        elif peq(nd(ex,st,par,16),u): sp(par,16,v)
        else: sp(par,24,v)
        if v.o: sp(v,8,par)
    l=nd(ex,st,z,16); r=nd(ex,st,z,24)
    if not l.o: replace(z,r)
    elif not r.o: replace(z,l)
    else:
        y=r
        while nd(ex,st,y,16).o: y=nd(ex,st,y,16)
        if not peq(nd(ex,st,y,8),z):
            replace(y,nd(ex,st,y,24)); sp(y,24,nd(ex,st,z,24)); sp(nd(ex,st,y,24),8,y)
        replace(z,y); sp(y,16,nd(ex,st,z,16)); sp(nd(ex,st,y,16),8,y)
    if newl is not None: sp(hd,16,newl)
    if newr is not None: sp(hd,24,newr)
    if not nd(ex,st,hd,8).o: sp(hd,16,hd); sp(hd,24,hd)
    return fin(ex,st,ins,z)
# ------------------------------------------------------------------ unordered containers: a single bucket that never rehashes
@dem(r'^std::__detail::_Prime_rehash_policy::_M_need_rehash')
def _(ex,st,ins,a,n): return fin(ex,st,ins,ret_pair(ins,0,1))
def ret_pair(ins,x,y):
    return [x,y]
@dem(r'^std::__detail::_Prime_rehash_policy::_M_next_bkt')
def _(ex,st,ins,a,n): return fin(ex,st,ins,1)
@dem(r'^std::_Hash_bytes\(')
def _(ex,st,ins,a,n): return fin(ex,st,ins,ex.freshbv('hash',64))
@dem(r'^std::type_info::name\(\)')
def _(ex,st,ins,a,n):
    p=ex.alloc(st,2,'type name',True); ex.store(st,p,ord('t'),I8); return fin(ex,st,ins,p)
@dem(r'^std::chrono::.*::now\(\)')      # any clock reading
def _(ex,st,ins,a,n): return fin(ex,st,ins,ex.freshbv('clock',64))
@h('pthread_mutex_lock','pthread_mutex_unlock','pthread_mutex_init','pthread_mutex_destroy','pthread_mutex_trylock')
def _(ex,st,ins,a,n):
    ex.trusted.add('mutex operations succeed; the verified code is sequential between them'); return fin(ex,st,ins,0)
# std::thread: one schedule only -- the thread's body runs to completion when it is started (reported as trusted)
@dem(r'^std::thread::_M_start_thread\(')
def _(ex,st,ins,a,n):
    ex.trusted.add('std::thread: each started thread runs to completion at once (one schedule; interleavings are not explored)')
    ex.store(st,a[0],1,I64)
    state=ex.load(st,a[1],P_); vt=ex.load(st,state,P_); run=ex.load(st,ex.padd(vt,16),P_)
    ex.push(st,ex.mod.fn(ex.mod.alias.get(ex.fobj_name[run.o],ex.fobj_name[run.o])),[state],ins)
    st.frames[-1].tag='thread'
    return None
@dem(r'^std::current_exception\(\)')
def _(ex,st,ins,a,n):
    ex.store(st,a[0],st.caught[-1] if st.caught else NULL,P_); return fin(ex,st,ins)
@dem(r'^std::rethrow_exception\(')
def _(ex,st,ins,a,n):
    e=ex.load(st,a[0],P_); ex.throw(st,e,st.exct[e.o]); return [st]
@dem(r'^std::__exception_ptr::exception_ptr::_M_(addref|release)\(\)')
def _(ex,st,ins,a,n): return fin(ex,st,ins)
@dem(r'^std::thread::join\(\)')
def _(ex,st,ins,a,n):
    ex.store(st,a[0],0,I64); return fin(ex,st,ins)
@dem(r'^std::thread::_State::~_State\(\)')
def _(ex,st,ins,a,n): return fin(ex,st,ins)
@dem(r'^std::thread::hardware_concurrency\(\)')
def _(ex,st,ins,a,n): return fin(ex,st,ins,ex.freshbv('concurrency',32))
