"""Loops over arrays of any length: inferred loop invariants, checked inductively.

At a loop header the values that change in the loop (phis, memory cells, regions) are classified from one symbolic
iteration: constant, linear in the iteration number, or a fold (recursively defined from its previous value).  The guessed
invariant
    every constant/linear/fold value as guessed  &  i <= N  &  regions hold what iterations 0..i-1 stored
is then checked: it holds on entry by construction (i = 0), and one iteration from any state satisfying it re-establishes
it.  Only a checked invariant is used; execution continues from the exits of that arbitrary iteration.  Contract-supplied
invariants (vc_invariant) are proved on entry and after the arbitrary iteration, and assumed before it."""
import z3
from .sym import *
from . import sym as S
from . import llvmir as L

class GiveUp(Exception): pass
class SpecFail(Exception): pass

def loops_of(fn):
    """natural loops: header -> set of blocks"""
    if getattr(fn,'nloops',None) is not None: return fn.nloops
    n=len(fn.blocks); succ=[]
    for b in fn.blocks:
        t=b[-1]
        if t.op=='br': s=list(t.a[1:])
        elif t.op=='switch': s=[t.a[2]]+[x[1] for x in t.a[3]]
        elif t.op=='invoke': s=[t.a[3][0],t.a[3][1]]
        else: s=[]
        succ.append(s)
    pred=[[] for _ in range(n)]
    for i,s in enumerate(succ):
        for j in s: pred[j].append(i)
    full=(1<<n)-1; dom=[full]*n; dom[0]=1; ch=True
    while ch:
        ch=False
        for i in range(1,n):
            m=full
            for p in pred[i]: m&=dom[p]
            m|=1<<i
            if m!=dom[i]: dom[i]=m; ch=True
    out={}
    for u in range(n):
        for h in succ[u]:
            if dom[u]>>h&1 and (u==h or dom[u]!=full or True):
                body=out.setdefault(h,{h}); stack=[u]
                while stack:
                    x=stack.pop()
                    if x in body: continue
                    body.add(x); stack.extend(pred[x])
    fn.nloops=out
    return out

def lit(e):
    if isint(e): return int(e)
    e=simp(e)
    return e.as_long() if z3.is_bv_value(e) else None
def consts(e,acc=None):
    seen=set(); out={}; stack=[e]
    while stack:
        x=stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: out[x.decl().name()]=x
        stack.extend(x.children())
    return out
def subst(e,*p):
    if isint(e) or isinstance(e,float): return e
    return z3.substitute(e,*p)
def counter(name):
    k=name.rsplit('!',1)
    return int(k[1]) if len(k)==2 and k[1].isdigit() else -1

class Slot:
    __slots__=('where','cls','v0','w','kind','d','sym','sym0','expr','fn','n','step','entry')

def snapshot(ex):
    return ({k:dict(v,backends=dict(v['backends'])) for k,v in ex.obl.items()},dict(ex.covers),list(ex.failures),set(ex.failed_names),ex.paths,dict(ex.path_kinds))
def restore(ex,s): ex.obl,ex.covers,ex.failures,ex.failed_names,ex.paths,ex.path_kinds=s

def infer(ex,st,force=False):
    f=st.frames[-1]; H=f.block; d=len(st.frames); body=loops_of(f.fn)[H]
    if len(ex.specs)>8: return None
    snap=snapshot(ex)
    try:
        r=_infer(ex,st,d,H,body,force)
        return r
    except (GiveUp,SpecFail,Unsupported) as e:
        restore(ex,snap)
        if ex.opts.get('trace'): print('loop not generalised:',f.fn.dem[:100],f.fn.order[H] or H,type(e).__name__,str(e)[:300])
        if isinstance(e,Unsupported) and 'time limit of the harness' in str(e): raise
        return None

def run_body(ex,st,d,H,body,mode,inv):
    """one iteration from the header; returns (states back at the header, states that left the loop)"""
    st.watch=st.watch+((d,H,body),); st.enter=None
    ex.specs.append((mode,d,inv))
    backs=[]; exits=[]; work=[st]
    try:
        while work:
            x=work.pop()
            if ex.deadline and time.time()>ex.deadline: raise Unsupported('time limit of the harness reached')
            try: nx=ex.step(x)
            except PathEnd as e:
                ex.paths+=1; k=e.why.split(':')[0]; ex.path_kinds[k]=ex.path_kinds.get(k,0)+1; continue
            for y in nx:
                if y.arrived:
                    (backs if y.arrived=='back' else exits).append(y); y.watch=y.watch[:-1]; y.arrived=None
                    if len(backs)+len(exits)>40: raise GiveUp('too many paths in the body')
                else: work.append(y)
    finally: ex.specs.pop()
    return backs,exits

def slots_of(ex,st,s1,d,H):
    """what changed between two visits of the header"""
    f0=st.frames[d-1]; f1=s1.frames[d-1]; out=[]; regions=[]
    for ins in f0.fn.blocks[H]:
        if ins.op!='phi': break
        s=Slot(); s.where=('reg',ins.dst); s.v0=f0.regs[ins.dst]; s.w=ins.ty.w; s.kind=ins.ty.k; s.n=None
        out.append((s,f1.regs[ins.dst]))
    for a,b in zip(st.frames[:-1],s1.frames[:-1]):
        if a.regs is not b.regs and any(x is not y for x,y in zip(a.regs,b.regs)): raise GiveUp('registers of a caller changed')
    if st.uni is not s1.uni: raise GiveUp('facts added in the body')
    if len(st.anys)!=len(s1.anys): raise GiveUp('arbitrary values drawn in the body')
    if st.caught!=s1.caught: raise GiveUp('exception state')
    for i,o1 in s1.mem.items():
        o0=st.mem.get(i) or ex.base.get(i)
        if o0 is o1: continue
        if o0 is None:
            if o1.alive: raise GiveUp('allocation in the body (%s)'%o1.name)
            continue
        if o0.alive!=o1.alive:
            raise GiveUp('deallocation in the body')
        if not o0.alive: continue
        if o0.kind=='region':
            if not o0.arr.eq(o1.arr): regions.append((i,o0.arr,o1.arr))
        for off in set(o0.cells)|set(o1.cells):
            a=o0.cells.get(off); b=o1.cells.get(off)
            if a is b: continue
            if a is not None and b is not None and a[0]==b[0] and a[2]==b[2] and same(a[1],b[1]): continue
            if a is None and o0.zero and ex.cell_at(o0,off) is None: a=(b[0],0,'i')
            if a is None or b is None or a[0]!=b[0]: 
                if a is None and b is not None and all(ex.cell_at(o0,off+q) is None for q in range(b[0])) and not o0.zero:
                    a=(b[0],None,b[2])        # first written in the body: undefined before
                else: raise GiveUp('memory layout changes in the body (%s+%s)'%(o0.name,off))
            s=Slot(); s.where=('cell',i,off); s.v0=a[1]; s.w=8*a[0]; s.n=a[0]; s.kind='p' if isinstance(a[1],Ptr) or isinstance(b[1],Ptr) else ('f' if 'f' in(a[2],b[2]) else 'i')
            out.append((s,b[1]))
    return out,regions
def fty(n):
    t=L.Ty(); t.k='f'; t.w=8*n; return t
def same(a,b):
    if a is b: return True
    if isinstance(a,Ptr) or isinstance(b,Ptr):
        return isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o and same(a.off,b.off)
    if isinstance(a,list) or isinstance(b,list):
        return isinstance(a,list) and isinstance(b,list) and len(a)==len(b) and all(same(x,y) for x,y in zip(a,b))
    if isinstance(a,float) or isinstance(b,float): return isinstance(a,float) and isinstance(b,float) and a==b
    if isint(a) and isint(b): return int(a)==int(b)
    if isint(a) or isint(b):
        e=simp(b if isint(a) else a); v=a if isint(a) else b
        if z3.is_bv_value(e): return e.as_long()==v
        if z3.is_true(e) or z3.is_false(e): return bool(v)==z3.is_true(e)
        return False
    return a.eq(b) or simp(a).eq(simp(b))
def delta(a,b,w):
    """b-a if it is a literal"""
    if isinstance(a,Ptr) or isinstance(b,Ptr):
        if not(isinstance(a,Ptr) and isinstance(b,Ptr)) or a.o!=b.o: return None
        return delta(a.off,b.off,64)
    if isinstance(a,(float,list)) or isinstance(b,(float,list)) or w is None or w==1: return None
    if not isint(a) and not z3.is_bv(a) or not isint(b) and not z3.is_bv(b): return None
    if isint(a) and isint(b): return (b-a)&M(w)
    return lit(bv(b,w)-bv(a,w))

def lin(v0,dl,i,w):
    """v0 + dl*i at width w"""
    if dl==0: return v0
    ii=i if w==64 else (z3.Extract(w-1,0,i) if w<64 else z3.ZeroExt(w-64,i))
    t=ii if dl==1 else ii*z3.BitVecVal(dl,w)
    if isint(v0): return t if v0==0 else z3.BitVecVal(v0,w)+t
    return v0+t
def nopattern(s):
    if s.where[0]=='reg': raise GiveUp('pointer without a pattern')
    return 'undef'
def put(ex,st,d,slot,v):
    if slot.where[0]=='reg': st.frames[d-1].regs[slot.where[1]]=v
    else:
        o=ex.wobj(st,slot.where[1]); ex.write_cell(o,slot.where[2],slot.n,v,slot.kind)
def get(ex,st,d,slot):
    if slot.where[0]=='reg': return st.frames[d-1].regs[slot.where[1]]
    o=ex.obj(st,slot.where[1]); c=o.cells.get(slot.where[2])
    if c is None or c[0]!=slot.n:
        t=L.Ty(); t.k='i'; t.w=slot.w
        return ex.read_cell(st,o,slot.where[2],t)
    return c[1]

def _infer(ex,S0,d,H,body,force):
    # ---- one iteration from the entry state
    p=S0.clone()
    backs,exits=run_body(ex,p,d,H,body,'learn','check')
    if len(backs)!=1: raise GiveUp('%d ways around the loop'%len(backs))
    concrete=not exits and not force
    cand,regs=slots_of(ex,S0,backs[0],d,H)
    slots=[]
    for s,v1 in cand:
        if s.v0 is None: s.cls='undef'
        elif same(s.v0,v1): s.cls='const'
        else:
            s.d=delta(s.v0,v1,s.w)
            if s.d is not None: s.cls='lin'
            elif isinstance(s.v0,Ptr) or isinstance(v1,Ptr) or isinstance(s.v0,list): s.cls=nopattern(s)
            else: s.cls='fold'
        slots.append(s)
    i=ex.freshbv('iteration',64)
    I=lambda n: z3.Extract(ex.IDX-1,0,n)
    regmem={}
    for (o,a0,a1) in regs: regmem[o]=a0
    for attempt in range(6):
        start=ex.fresh
        A={}; B=S0.clone(); B.model=None
        for s in slots:
            if s.cls=='lin':
                if isinstance(s.v0,Ptr):
                    g=s.d if s.d<(1<<63) else (1<<64)-s.d
                    al=(g,s.v0.off%g) if isint(s.v0.off) else s.v0.al
                    s.sym=Ptr(s.v0.o,simp(lin(bv(s.v0.off,64),s.d,i,64)),al)
                else: s.sym=lin(s.v0,s.d,i,s.w)
            elif s.cls=='undef':
                ex.clear_range(ex.wobj(B,s.where[1]),s.where[2],s.n); s.sym=None; continue
            elif s.cls=='const': s.sym=s.v0
            else:
                if s.kind=='f': s.sym=ex.freshty('fold',fty((s.w or 64)//8))
                elif s.w==1: s.sym=ex.freshb('fold')
                elif s.w is None: raise GiveUp('value of unknown width')
                else: s.sym=ex.freshbv('fold',s.w)
            put(ex,B,d,s,s.sym)
        for o,a0 in regmem.items():
            ex.fresh+=1; A[o]=z3.Array(f'region!{ex.fresh}',z3.BitVecSort(ex.IDX),z3.BitVecSort(64))
            ex.wobj(B,o).arr=A[o]
        entry=B.clone(); npc=len(B.pc)
        backs,exits=run_body(ex,B,d,H,body,'learn','assume')
        if len(backs)!=1: raise GiveUp('%d ways around the loop (arbitrary iteration)'%len(backs))
        k=backs[0]
        cand2,regs2=slots_of(ex,entry,k,d,H)
        again=False
        known={s.where:s for s in slots}
        for s2,v in cand2:
            s=known.get(s2.where)
            if s is None:
                s2.cls='fold'
                # entry value in the real entry state
                s2.v0=get(ex,S0,d,s2) if s2.v0 is not None else None
                if s2.v0 is None: s2.cls='undef'
                elif s2.kind=='p' or isinstance(s2.v0,Ptr): s2.cls=nopattern(s2)
                slots.append(s2); again=True; continue
        for s in slots:
            if s.cls=='undef': continue
            v=get(ex,k,d,s)
            if s.cls=='const' and not same(s.v0,v):
                s.cls=nopattern(s) if isinstance(v,Ptr) or isinstance(s.v0,(Ptr,list)) else 'fold'; again=True
            elif s.cls=='lin':
                ok=delta(s.sym,v,s.w)==s.d
                if not ok:
                    s.cls=nopattern(s) if isinstance(s.v0,Ptr) else 'fold'; again=True
            s.expr=v
        for (o,a0,a1) in regs2:
            if o not in regmem: regmem[o]=a0; again=True
        if not again: break
    else: raise GiveUp('no fixed point')
    conds=[c for c in k.pc[npc:] if c.get_id() not in ex.learned]
    fresh_names=lambda e:[n for n in consts(e) if counter(n)>start]
    foldsyms={s.sym.decl().name() for s in slots if s.cls=='fold'}
    arrs={a.decl().name():(o,a) for o,a in A.items()}
    # ---- what the loop stores
    stores={}
    for o,a in A.items():
        chain=[]; e=ex.obj(k,o).arr
        while not e.eq(a):
            if e.decl().kind()!=z3.Z3_OP_STORE: raise GiveUp('region changed other than by stores')
            chain.append((e.arg(1),e.arg(2))); e=e.arg(0)
        chain.reverse(); stores[o]=[]
        for ix,val in chain:
            if fresh_names(ix): raise GiveUp('store at an index without a pattern')
            ix0=simp(subst(ix,(i,z3.BitVecVal(0,64)))); s=lit(subst(ix,(i,z3.BitVecVal(1,64)))-ix0)
            if s is None or not valid([],ix==ix0+I(i)*s): raise GiveUp('store at an index without a pattern: %s'%str(ix)[:600])
            stores[o].append([ix0,s,val])
    top=1<<(ex.IDX-1); whole=1<<ex.IDX
    def iteration(ix0,s,j,n):
        """number of the iteration that stored element j, as an index"""
        if s==0: return I(n)-1
        if s==1: return j-ix0
        if s==whole-1: return ix0-j
        return z3.UDiv(j-ix0,s) if s<top else z3.UDiv(ix0-j,whole-s)
    def inside(ix0,s,j,n):
        n=I(n)
        if s==0: return z3.And(j==ix0,n!=0)
        if s==1: return z3.ULT(j-ix0,n)
        if s==whole-1: return z3.ULT(ix0-j,n)
        dd=j-ix0 if s<top else ix0-j; s=s if s<top else whole-s
        return z3.And(z3.URem(dd,s)==0,z3.ULT(z3.UDiv(dd,s),n))
    def closed(o,n,j,free):
        """element j after n iterations; `free` where the stored value has no closed form"""
        e=z3.Select(regmem[o],j)
        for ix0,s,val in stores[o]:
            v=free if val is None else z3.substitute(val,(i,z3.ZeroExt(64-ex.IDX,iteration(ix0,s,j,n))))
            e=z3.If(inside(ix0,s,j,n),v,e)
        return e
    # ---- the bound on the iteration number
    N=None; limit=z3.BitVecVal(1<<ex.IDX,64); tried=0
    for c in conds:
        for q in linear_bound(c,i):
            if fresh_names(q) or tried>=6: continue
            tried+=1
            if valid(list(k.pc)+[z3.ULE(i,q),z3.ULT(i,limit)],z3.And(z3.ULE(i+1,q),z3.ULT(i+1,limit))): N=q; break
        if N is not None: break
    if N is None: raise GiveUp('no bound on the number of iterations')
    if lit(N) is not None and (lit(N)<=64 or concrete and lit(N)<=300): raise GiveUp('iteration count is concrete')
    within=z3.And(z3.ULE(i,N),z3.ULT(i,limit))
    base=list(S0.pc)+[within]
    def settle(e):
        """e with the elements read before they are overwritten traced back to their values before the loop, or None"""
        for _ in range(8):
            if isint(e) or isinstance(e,float): return e
            if not any(x in arrs for x in consts(e)): return e
            rep=[]; stack=[e]; seen=set()
            while stack:
                x=stack.pop()
                if x.get_id() in seen: continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_SELECT and z3.is_const(x.arg(0)) and x.arg(0).decl().name() in arrs:
                    o,a=arrs[x.arg(0).decl().name()]; ix=x.arg(1)
                    if fresh_names(ix): return None
                    if all(valid(base,z3.Not(inside(r[0],r[1],ix,i))) for r in stores[o]): rep.append((x,z3.Select(regmem[o],ix))); continue
                    return None
                stack.extend(x.children())
            if not rep: return None
            e=z3.substitute(e,*rep)
        return None
    for o in stores:
        for r in stores[o]:
            v=settle(r[2]); r[2]=None if v is None or fresh_names(v) else v
    for s in slots:
        if s.cls!='fold': continue
        e=s.expr
        if isint(e): e=bv(e,s.w) if s.w!=1 else z3.BoolVal(bool(e))
        if isinstance(e,float): e=fpv(e,s.w or 64)
        if z3.is_bool(e) and s.w!=1 or z3.is_bv(e) and e.size()!=s.sym.size(): raise GiveUp('width')
        e=settle(e); mine=s.sym.decl().name()
        if e is None or any(n!=mine for n in fresh_names(e)): s.cls='any'; continue
        ex.fresh+=1; s.fn=z3.Function('fold!%d'%ex.fresh,z3.BitVecSort(64),s.sym.sort())
        s.step=(lambda e,sym: lambda n,prev: z3.substitute(e,(i,n),(sym,prev)))(e,s.sym)
        s.entry=bv(s.v0,s.w) if s.kind!='f' and s.w!=1 else boolz(s.v0) if s.w==1 else fpv(s.v0,s.w or 64)
    # ---- the arbitrary iteration, with the guessed invariant
    facts=[]
    for o,a in A.items():
        facts.append(('idx',(lambda o,a: lambda j: z3.Select(a,j)==closed(o,i,j,z3.Select(a,j)))(o,a)))
    for s in slots:
        if s.cls=='fold': facts.append(('iter',(lambda s: lambda n: z3.And(s.fn(n+1)==s.step(n,s.fn(n)),z3.Implies(n==0,s.fn(n)==s.entry)))(s)))
    gs=[]
    for c in conds:
        c2=settle(c)
        if c2 is not None and not isint(c2) and not fresh_names(c2): gs.append(c2)
    if gs:
        g=z3.And(*gs) if len(gs)>1 else gs[0]
        earlier=lambda n: z3.Implies(z3.ULT(n,i),z3.substitute(g,(i,n)))
        facts.append(('iter',earlier))
        done=set()
        for ix in selects(g):
            ix0=simp(subst(ix,(i,z3.BitVecVal(0,64)))); sd=lit(subst(ix,(i,z3.BitVecVal(1,64)))-ix0)
            if sd in(1,whole-1) and (ix0.get_id(),sd) not in done:
                done.add((ix0.get_id(),sd))
                facts.append(('idx',(lambda ix0,sd: lambda j: earlier(z3.ZeroExt(64-ex.IDX,j-ix0 if sd==1 else ix0-j)))(ix0,sd)))
    T=S0.clone(); T.model=None
    for s in slots:
        if s.cls=='undef': ex.clear_range(ex.wobj(T,s.where[1]),s.where[2],s.n); continue
        if s.cls=='fold': s.sym0=s.sym; s.sym=s.fn(i)
        put(ex,T,d,s,s.sym)
    for o,a in A.items(): ex.wobj(T,o).arr=a
    ex.add(T,within); T.model=None
    T.uni=T.uni+tuple(facts)
    entry=T.clone()
    backs,exits=run_body(ex,T,d,H,body,'strict','assume')
    # ---- the inductive step
    rec=ex.obl.setdefault('loop_invariant.'+S0.frames[-1].fn.dem.split('(')[0][:120],dict(instances=0,discharged=0,backends={},time=0.0,kind='loop',failed=0))
    for k in backs:
        cand3,regs3=slots_of(ex,entry,k,d,H); known={s.where for s in slots}
        if any(s.where not in known for s,_ in cand3) or any(o not in A for o,_,_ in regs3): raise GiveUp('the frame is too small')
        goals=[z3.ULE(i+1,N),z3.ULT(i+1,limit)]
        for s in slots:
            if s.cls=='undef': continue
            v=get(ex,k,d,s)
            if s.cls=='const':
                if not same(v,s.v0): raise GiveUp('not constant')
            elif s.cls=='lin':
                if delta(s.sym,v,s.w)!=s.d: raise GiveUp('not linear')
            elif s.cls=='fold':
                w=s.step(i,s.fn(i)); goals.append((fpv(v,s.w or 64) if s.kind=='f' else boolz(v) if s.w==1 else bv(v,s.w))==w)
        for o,a in A.items():
            j=ex.freshbv('element',ex.IDX); e=z3.Select(ex.obj(k,o).arr,j)
            goals.append(e==closed(o,i+1,j,e))
        for g in goals:
            if not strict(ex,k,g,rec): raise GiveUp('not inductive: %s'%str(simp(g))[:300])
        n=k.clone(); n.model=None
        run_body(ex,n,d,H,body,'learn','check')       # the contract's invariants hold again
    for x in exits:
        for s in slots:
            if s.cls=='fold': register(ex,x,s,N,rec)
    if ex.opts.get('trace'): print('loop generalised:',S0.frames[-1].fn.dem[:100],[(s.where,s.cls) for s in slots],'regions',{o:len(v) for o,v in stores.items()},'N',str(simp(N))[:80],'exits',len(exits))
    return exits

def opaque(es):
    """products and quotients replaced by unknowns (sound for a refutation)"""
    acc={}; seen=set(); stack=list(es)
    while stack:
        x=stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() in S.HARD and not(x.decl().kind()==z3.Z3_OP_BMUL and any(z3.is_bv_value(y) for y in x.children())) : acc[x.get_id()]=x; continue
        stack.extend(x.children())
    if not acc: return None
    return [z3.substitute(e,*[(x,z3.Const('opaque!%d'%n,x.sort())) for n,x in enumerate(acc.values())]) for e in es]
def valid(pc,c,ms=3000):
    h=opaque(list(pc)+[z3.Not(c)])
    if h is not None:
        s=z3.Solver(); s.set('timeout',ms//2); s.add(*h)
        if s.check()==z3.unsat: return True
    s=z3.Solver(); s.set('timeout',ms); s.add(*pc); s.add(z3.Not(c))
    return s.check()==z3.unsat
def selects(e):
    out=[]; seen=set(); stack=[e]
    while stack:
        x=stack.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind()==z3.Z3_OP_SELECT: out.append(x.arg(1))
        stack.extend(x.children())
    return out
def flatten(goals):
    """element reads and fold values replaced by unknowns (sound for a refutation: only congruence is lost)"""
    rep={}
    def leaves(e,acc,seen):
        stack=[e]
        while stack:
            x=stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_app(x) and (x.decl().kind()==z3.Z3_OP_SELECT or x.decl().kind()==z3.Z3_OP_UNINTERPRETED and x.num_args()): acc[x.get_id()]=x; continue
            stack.extend(x.children())
    goals=[simp(g) for g in goals]; acc={}; seen=set()
    for g in goals: leaves(g,acc,seen)
    if not acc: return goals
    pairs=[(x,z3.Const('leaf!%d'%n,x.sort())) for n,x in enumerate(acc.values())]
    return [z3.substitute(g,*pairs) for g in goals]
def strict(ex,st,g,rec):
    """prove g in st and record it as an obligation"""
    rec['instances']+=1
    g=simp(g)
    if z3.is_true(g): be='evaluation'
    else:
        pc=list(st.pc)+ex.instances(st,[g])
        be='z3' if valid(pc,g,2000) else None
        if be is None:
            fl=flatten(pc+[z3.Not(g)])
            r,b,dt,_=ex.port.solve(fl[:-1],fl[-1],[])
            rec['time']+=dt
            be=b if r=='unsat' else None
        if be is None and valid(pc,g,20000): be='z3'
    if be is None: return False
    rec['discharged']+=1; rec['backends'][be]=rec['backends'].get(be,0)+1
    return True
def linear_bound(c,i):
    """candidates for the number of iterations from a continuation condition"""
    neg=False
    while z3.is_not(c): c=c.arg(0); neg=not neg
    k=c.decl().kind()
    if z3.is_and(c) and not neg:
        for x in c.children(): yield from linear_bound(x,i)
        return
    if z3.is_or(c) and neg:
        for x in c.children(): yield from linear_bound(z3.Not(x),i)
        return
    if c.num_args()!=2 or not z3.is_bv(c.arg(0)): return
    a,b=c.arg(0),c.arg(1); w=a.size()
    zero,one=z3.BitVecVal(0,64),z3.BitVecVal(1,64)
    at=lambda e,v: z3.substitute(e,(i,v))
    dd=lit(at(a-b,one)-at(a-b,zero))
    if dd is None or dd==0: return
    diff=at(b-a,zero)       # distance to cover
    if dd>>(w-1): dd=(1<<w)-dd; diff=at(a-b,zero)
    def ext(e): return e if w==64 else z3.ZeroExt(64-w,e) if w<64 else z3.Extract(63,0,e)
    def div(e):
        if dd==1: return ext(e)
        if dd&(dd-1)==0: return ext(z3.LShR(e,dd.bit_length()-1))
        return ext(z3.UDiv(e,z3.BitVecVal(dd,w)))
    if neg and k==z3.Z3_OP_EQ: yield div(diff)
    for q in (div(diff),div(diff)+1,div(diff)-1):
        if not(neg and k==z3.Z3_OP_EQ): yield z3.If(z3.BoolVal(True),q,q)
    if k in(z3.Z3_OP_ULT,z3.Z3_OP_ULEQ,z3.Z3_OP_UGT,z3.Z3_OP_UGEQ,z3.Z3_OP_SLT,z3.Z3_OP_SLEQ,z3.Z3_OP_SGT,z3.Z3_OP_SGEQ):
        c0=z3.substitute(z3.Not(c) if neg else c,(i,zero))
        for q in (div(diff),div(diff)+1): yield z3.If(c0,q,z3.BitVecVal(0,64))
def register(ex,x,s,N,rec):
    """relate a fold to the folds of earlier loops: equal steps give equal folds, by induction on the iteration"""
    folds=x.ghost.get('folds',())
    a=ex.freshbv('previous',1) if False else z3.Const('previous!%d'%ex.newid(),s.sym0.sort()); n=ex.freshbv('any_iteration',64)
    mine=s.step(n,a)
    def additive(e):
        if not z3.is_bv(e): return None
        t=simp(e-a)
        return t if a.decl().name() not in consts(t) else None
    t1=additive(mine)
    for (step,fn,entry,M2) in folds:
        if fn.range()!=s.fn.range(): continue
        other=step(n,a); t2=additive(other)
        hyp=z3.And(z3.ULT(n,N),z3.ULT(n,M2))
        goal=None
        if t1 is not None and t2 is not None: goal=t1==t2; fact=(lambda fn,entry: lambda m: z3.Implies(z3.And(z3.ULE(m,N),z3.ULE(m,M2)),s.fn(m)-s.entry==fn(m)-entry))(fn,entry)
        elif same(entry,s.entry) or valid(list(x.pc),entry==s.entry): goal=mine==other; fact=(lambda fn: lambda m: z3.Implies(z3.And(z3.ULE(m,N),z3.ULE(m,M2)),s.fn(m)==fn(m)))(fn)
        if goal is None: continue
        r2=dict(instances=0,discharged=0,backends={},time=0.0)
        long=ex.port.long_s; ex.port.long_s=10
        try: ok=strict(ex,x,z3.Implies(hyp,goal),r2)
        finally: ex.port.long_s=long
        if ok:
            rec['instances']+=1; rec['discharged']+=1
            for b,v in r2['backends'].items(): rec['backends'][b]=rec['backends'].get(b,0)+v
            x.uni=x.uni+(('iter',fact),)
    x.ghost['folds']=folds+((s.step,s.fn,s.entry,N),)
