"""Symbolic executor / verification-condition generator over LLVM IR.
All machine integers are exact bit-vectors; memory is a set of disjoint objects.  Every path of the harness is
executed (loops: complete unrolling when the trip count is bounded, loop contracts otherwise); every obligation is
sent to an SMT solver."""
import z3, sys, time, re, os, struct
from . import llvmir as L

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(s,cond): s.cond=cond
class ForkMany(Exception):
    def __init__(s,conds): s.conds=conds
class PathEnd(Exception):
    def __init__(s,why): s.why=why
class NeedInit(Exception):
    def __init__(s,fn): s.fn=fn

class Ptr:
    __slots__=('o','off','al')
    def __init__(s,o,off,al=None): s.o=o; s.off=off; s.al=al
    def __repr__(s): return f'Ptr({s.o},{s.off})'
NULL=Ptr(0,0)

M=lambda w:(1<<w)-1
def sgn(v,w): return v-(1<<w) if v>>(w-1)&1 else v
def join(lo,hi):
    """(zext lo) | (zext hi << |lo|)  ->  concat(hi,lo), and back to the original value when both halves come from it"""
    if lo.decl().kind()!=z3.Z3_OP_ZERO_EXT or hi.decl().kind()!=z3.Z3_OP_BSHL: return None
    l=lo.arg(0); h=hi.arg(0); k=hi.arg(1)
    if not z3.is_bv_value(k) or k.as_long()!=l.size() or h.decl().kind()!=z3.Z3_OP_ZERO_EXT: return None
    h=h.arg(0); w=lo.size()
    if h.size()+l.size()>w: return None
    e=None
    if l.decl().kind()==z3.Z3_OP_EXTRACT and h.decl().kind()==z3.Z3_OP_EXTRACT and l.arg(0).eq(h.arg(0)):
        (a,b),(c,d)=h.params(),l.params()
        if b==c+1: e=l.arg(0) if d==0 and a==l.arg(0).size()-1 else z3.Extract(a,d,l.arg(0))
    if e is None: e=z3.Concat(h,l)
    return e if e.size()==w else z3.ZeroExt(w-e.size(),e)
def b01(v):
    """truth value of a 0/1 integer that came from a boolean, or None"""
    if isint(v): return int(v) if v in(0,1) else None
    if isinstance(v,z3.BitVecRef) and v.decl().kind()==z3.Z3_OP_ITE:
        a,b=v.arg(1),v.arg(2)
        if z3.is_bv_value(a) and z3.is_bv_value(b) and a.as_long()==1 and b.as_long()==0: return v.arg(0)
    return None
isint=lambda v: type(v) is int or type(v) is bool
def bv(v,w):
    if isint(v): return z3.BitVecVal(int(v),w)
    return v
def boolz(v):
    if isint(v): return z3.BoolVal(bool(v))
    return v
F64=z3.Float64(); RNE=z3.RNE(); RTZ=z3.RTZ()
def fpv(v,w=64):
    if isinstance(v,float): return z3.FPVal(v,z3.Float64() if w==64 else z3.Float32())
    return v
def simp(e):
    return z3.simplify(e)
def znot(c):
    return nsimp(c.arg(0)) if z3.is_not(c) else nsimp(z3.Not(c))
def nsimp(e):
    """constant if the condition simplifies to one, else the condition as written (solvers prefer the original structure)"""
    t=z3.simplify(e)
    if z3.is_true(t): return 1
    if z3.is_false(t): return 0
    return e if t.num_args() and hard(t) else t
HARD={z3.Z3_OP_BMUL,z3.Z3_OP_BUDIV,z3.Z3_OP_BSDIV,z3.Z3_OP_BUREM,z3.Z3_OP_BSREM,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BSDIV_I,z3.Z3_OP_BUREM_I,z3.Z3_OP_BSREM_I}
def hard(e,limit=400):
    """does the term contain multiplication or division (searched to a limit)"""
    seen=set(); stack=[e]
    while stack and limit:
        x=stack.pop(); i=x.get_id()
        if i in seen: continue
        seen.add(i); limit-=1
        if x.decl().kind() in HARD: return True
        stack.extend(x.children())
    return bool(stack)
def norm(e,w):
    """z3 BV expr -> int if literal"""
    if z3.is_bv_value(e): return e.as_long()
    return e
def normb(e):
    if z3.is_true(e): return 1
    if z3.is_false(e): return 0
    return e

class Obj:
    __slots__=('id','size','cells','zero','tok','name','alive','kind','ro','site','meta','arr')
    def __init__(s,id,size,name='',zero=False):
        s.id=id; s.size=size; s.cells={}; s.zero=zero; s.tok=None; s.name=name; s.alive=True; s.kind='heap'; s.ro=False; s.site=None; s.meta=None; s.arr=None
    def copy(s):
        n=Obj.__new__(Obj); n.id=s.id; n.size=s.size; n.cells=dict(s.cells); n.zero=s.zero; n.tok=None; n.name=s.name; n.alive=s.alive; n.kind=s.kind; n.ro=s.ro; n.site=s.site; n.meta=s.meta; n.arr=s.arr
        return n

class Frame:
    __slots__=('fn','block','prev','idx','regs','call','allocas','tag')
    def copy(s):
        n=Frame.__new__(Frame); n.fn=s.fn; n.block=s.block; n.prev=s.prev; n.idx=s.idx; n.regs=list(s.regs); n.call=s.call; n.allocas=list(s.allocas); n.tag=s.tag
        return n

class State:
    __slots__=('frames','mem','pc','decided','anys','exct','caught','model','tok','loopcnt','merge','notes','ghost','cuts','uni','watch','enter','arrived')
    def __init__(s):
        s.frames=[]; s.mem={}; s.pc=[]; s.decided={}; s.anys=[]; s.exct={}; s.caught=[]; s.model=None; s.tok=object(); s.loopcnt={}; s.merge=0; s.notes=[]; s.ghost={}; s.cuts={}; s.uni=(); s.watch=(); s.enter=None; s.arrived=None
    def clone(s):
        n=State.__new__(State); n.frames=[f.copy() for f in s.frames]; n.mem=dict(s.mem); n.pc=list(s.pc); n.decided=dict(s.decided); n.anys=list(s.anys); n.exct=dict(s.exct); n.caught=list(s.caught); n.model=s.model; n.tok=object(); s.tok=object(); n.loopcnt=dict(s.loopcnt); n.merge=s.merge; n.notes=list(s.notes); n.ghost=dict(s.ghost); n.cuts=dict(s.cuts); n.uni=s.uni; n.watch=s.watch; n.enter=s.enter; n.arrived=None
        return n

# exception type hierarchy of the standard library (trusted)
STDBASE={'_ZTISt9bad_alloc':'_ZTISt9exception','_ZTISt11logic_error':'_ZTISt9exception','_ZTISt13runtime_error':'_ZTISt9exception',
 '_ZTISt16invalid_argument':'_ZTISt11logic_error','_ZTISt12domain_error':'_ZTISt11logic_error','_ZTISt12length_error':'_ZTISt11logic_error','_ZTISt12out_of_range':'_ZTISt11logic_error',
 '_ZTISt11range_error':'_ZTISt13runtime_error','_ZTISt14overflow_error':'_ZTISt13runtime_error','_ZTISt15underflow_error':'_ZTISt13runtime_error','_ZTISt8bad_cast':'_ZTISt9exception','_ZTISt17bad_function_call':'_ZTISt9exception','_ZTISt18bad_variant_access':'_ZTISt9exception','_ZTISt19bad_optional_access':'_ZTISt9exception','_ZTISt12bad_any_cast':'_ZTISt8bad_cast','_ZTISt20bad_array_new_length':'_ZTISt9bad_alloc','_ZTISt12bad_weak_ptr':'_ZTISt9exception','_ZTISt9exception':None,'_ZTISt12system_error':'_ZTISt13runtime_error'}
THROWERS={'_ZSt20__throw_length_errorPKc':'_ZTISt12length_error','_ZSt20__throw_out_of_rangePKc':'_ZTISt12out_of_range','_ZSt24__throw_out_of_range_fmtPKcz':'_ZTISt12out_of_range','_ZSt19__throw_logic_errorPKc':'_ZTISt11logic_error','_ZSt17__throw_bad_allocv':'_ZTISt9bad_alloc','_ZSt28__throw_bad_array_new_lengthv':'_ZTISt20bad_array_new_length','_ZSt25__throw_bad_function_callv':'_ZTISt17bad_function_call','_ZSt16__throw_bad_castv':'_ZTISt8bad_cast','_ZSt20__throw_domain_errorPKc':'_ZTISt12domain_error','_ZSt24__throw_invalid_argumentPKc':'_ZTISt16invalid_argument','_ZSt21__throw_runtime_errorPKc':'_ZTISt13runtime_error','_ZSt26__throw_bad_variant_accessPKc':'_ZTISt18bad_variant_access','_ZSt20__throw_system_errori':'_ZTISt12system_error'}

class Failure:
    def __init__(s,name,kind,detail,anys,where,smt=None):
        s.name=name; s.kind=kind; s.detail=detail; s.anys=anys; s.where=where; s.smt=smt

from .solve import Portfolio

def words(t):      # made of 8-byte numbers only
    if t.k=='a': return t.n>0 and words(t.el)
    if t.k=='s': return bool(t.elems) and all(words(e) for e in t.elems)
    return t.k in 'if' and t.w==64
class Exec:
    def __init__(self, mod, opts):
        self.mod=mod; self.opts=opts
        self.next_obj=1; self.base={}      # globals/functions: objid -> Obj
        self.gobj={}; self.fobj={}; self.fobj_name={}
        self.fresh=0
        self.solver=z3.Solver(); self.solver.set('timeout',opts.get('feas_ms',3000)); self.sstack=[]
        self.port=Portfolio(opts)
        self.obl={}         # name -> dict(instances, discharged, backends)
        self.covers={}
        self.failures=[]; self.failed_names=set()
        self.fn_seen={}; self.stubbed=set()
        self.paths=0; self.path_kinds={}
        self.trusted=set()
        self.stats=dict(instrs=0,feas=0,feas_s=0.0)
        self.unroll=opts.get('unroll',300)
        self.maxpaths=opts.get('maxpaths',20000)
        self.deadline=opts.get('deadline')
        self.preinit=[]
        self.gvinit=None
        self.contracts={}    # mangled -> stub function name
        self.loops={}        # loop contracts
        self.bounded=None
        self.specs=[]; self.learned={}
        from . import loops; self.loopmod=loops
        from . import builtins as B
        self.B=B; B.setup(self)
    # ---------------------------------------------------------------- fresh / helpers
    def newid(self):
        self.next_obj+=1; return self.next_obj
    def freshbv(self,name,w):
        self.fresh+=1; return z3.BitVec(f'{name}!{self.fresh}',w)
    def freshb(self,name):
        self.fresh+=1; return z3.Bool(f'{name}!{self.fresh}')
    def freshty(self,name,t):
        if t.k=='i': return self.freshb(name) if t.w==1 else self.freshbv(name,t.w)
        if t.k=='f':
            self.fresh+=1; return z3.FP(f'{name}!{self.fresh}',F64 if t.w==64 else z3.Float32())
        if t.k=='p': return Ptr(-1,0)   # undefined pointer
        if t.k=='s': return [self.freshty(name,e) for e in t.elems]
        if t.k=='a': return [self.freshty(name,t.el) for _ in range(t.n)]
        raise Unsupported('fresh value of type %r'%t)
    # ---------------------------------------------------------------- solver
    def sync(self,pc):
        st=self.sstack; k=0; n=min(len(st),len(pc))
        while k<n and st[k] is pc[k]: k+=1
        while len(st)>k: self.solver.pop(); st.pop()
        for c in pc[k:]:
            self.solver.push(); self.solver.add(c); st.append(c)
    def check(self,st,cond):
        """returns (sat|unsat|unknown, model)"""
        t=time.time(); self.sync(st.pc); self.solver.push(); self.solver.add(cond)
        r=self.solver.check(); m=self.solver.model() if r==z3.sat else None
        self.solver.pop(); self.stats['feas']+=1; self.stats['feas_s']+=time.time()-t
        return r,m
    def add(self,st,cond,model=None):
        st.pc.append(cond); st.decided[cond.get_id()]=(True,cond)
        if model is not None: st.model=model
        elif st.model is not None:
            try:
                if not z3.is_true(st.model.eval(cond,model_completion=True)): st.model=None
            except z3.Z3Exception: st.model=None
    def choose(self,st,cond):
        """decide a condition on this path, forking if both outcomes are feasible"""
        if isint(cond): return bool(cond)
        c=simp(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        neg=False; raw=cond
        if z3.is_not(c): c=c.arg(0); neg=True; raw=raw.arg(0) if z3.is_not(raw) else z3.Not(raw)
        d=st.decided.get(c.get_id())
        if d is not None: return d[0]!=neg
        mt=mf=None; ct=cf=None
        if st.model is not None:
            e=st.model.eval(c,model_completion=True)
            if z3.is_true(e): ct=True; mt=st.model
            elif z3.is_false(e): cf=True; mf=st.model
        nc=z3.Not(c)
        if ct is None:
            r,m=self.check(st,c); ct=(r!=z3.unsat); mt=m
        if cf is None and ct:
            r,m=self.check(st,nc); cf=(r!=z3.unsat); mf=m
        elif cf is None: cf=True
        if ct and not cf:
            st.decided[c.get_id()]=(True,c); return not neg
        if cf and not ct:
            st.decided[c.get_id()]=(False,c); return neg
        f=Fork(raw); f.key=c; f.nc=z3.Not(raw); f.mt=mt; f.mf=mf; raise f
    def known(self,st,c):
        """c, or its truth value if this path already decided it"""
        if isint(c): return c
        t=simp(c); neg=False
        if z3.is_true(t): return 1
        if z3.is_false(t): return 0
        if z3.is_not(t): t=t.arg(0); neg=True
        d=st.decided.get(t.get_id())
        return c if d is None else int(d[0]!=neg)
    def fork_states(self,st,f):
        a=st; b=st.clone()
        a.pc.append(f.cond); a.decided[f.key.get_id()]=(True,f.key); a.model=f.mt
        b.pc.append(f.nc); b.decided[f.key.get_id()]=(False,f.key); b.model=f.mf
        return a,b
    def concretize(self,st,e,w=64,limit=64):
        """concrete value of a bit-vector on this path (forks over all feasible values)"""
        if isint(e): return int(e)
        e=simp(e)
        if z3.is_bv_value(e): return e.as_long()
        k=st.decided.get(('conc',e.get_id()))
        if k is not None: return k[0]
        vals=[]; excl=[]
        while True:
            r,m=self.check(st,z3.And(*excl) if excl else z3.BoolVal(True))
            if r==z3.unsat: break
            if r==z3.unknown: raise Unsupported('cannot concretise (solver unknown)')
            v=m.eval(e,model_completion=True).as_long(); vals.append(v); excl.append(e!=v)
            if len(vals)>limit: raise Unsupported('too many values for a symbolic size/offset')
        if not vals: raise PathEnd('infeasible')
        if len(vals)==1:
            st.decided[('conc',e.get_id())]=(vals[0],e); return vals[0]
        raise ForkMany([(e==v,('conc',e.get_id()),(v,e)) for v in vals])
    # ---------------------------------------------------------------- memory
    def obj(self,st,i):
        o=st.mem.get(i)
        if o is None: o=self.base.get(i)
        return o
    def wobj(self,st,i):
        o=st.mem.get(i)
        if o is None:
            o=self.base[i]
        if o.tok is not st.tok:
            o=o.copy(); o.tok=st.tok; st.mem[i]=o
        return o
    def alloc(self,st,size,name='',zero=False,kind='heap'):
        i=self.newid(); o=Obj(i,size,name,zero); o.kind=kind; o.tok=st.tok; st.mem[i]=o
        return Ptr(i,0)
    def fail(self,st,name,detail,cond=None,kind='safety'):
        """an obligation whose failure condition is `cond` (None: unconditional) on this path"""
        self.prove(st,name,z3.BoolVal(False) if cond is None else z3.Not(cond),detail,kind)
    def where(self,st):
        out=[]
        for f in reversed(st.frames[-6:]):
            out.append('%s [%s]'%(f.fn.dem[:160],f.fn.order[f.block] or f.block))
        return out
    def prove(self,st,name,cond,detail='',kind='ensure'):
        mode=self.specs[-1][0] if self.specs else None
        if mode=='learn':
            c=simp(boolz(cond))
            if z3.is_false(c): raise PathEnd('assumed')
            if not z3.is_true(c):
                c=boolz(cond); self.learned[c.get_id()]=c; self.add(st,c)
            return True
        o=self.obl.setdefault(name,dict(instances=0,discharged=0,backends={},time=0.0,kind=kind,failed=0))
        o['instances']+=1
        c=simp(boolz(cond))
        if z3.is_true(c):
            o['discharged']+=1; o['backends']['evaluation']=o['backends'].get('evaluation',0)+1; return True
        d=st.decided.get(c.get_id())
        if d is not None and d[0]:
            o['discharged']+=1; o['backends']['evaluation']=o['backends'].get('evaluation',0)+1; return True
        if name in self.failed_names and kind!='safety':
            # one counterexample per named obligation is enough; continue assuming it
            o['failed']+=1
            r,m=self.check(st,c)
            if r==z3.unsat: raise PathEnd('failed:'+name)
            self.add(st,c,m); return False
        vs=[a for a in st.anys if not a[2] is None]
        if st.uni:
            pc=list(st.pc)+self.instances(st,[boolz(cond)]); dt=0
            if self.loopmod.valid(pc,boolz(cond),1500): r,backend,model='unsat','z3',None
            else:
                fl=self.loopmod.flatten(pc+[z3.Not(boolz(cond))])
                r,backend,dt,model=self.port.solve(fl[:-1],fl[-1],vs)
                if r!='unsat': r,backend,dt,model=self.port.solve(pc,z3.Not(boolz(cond)),vs)
        else: r,backend,dt,model=self.port.solve(list(st.pc),z3.Not(boolz(cond)),vs)
        o['time']+=dt
        if r=='unsat':
            o['discharged']+=1; o['backends'][backend]=o['backends'].get(backend,0)+1
            self.add(st,boolz(cond)); st.decided[c.get_id()]=(True,c); return True
        if mode=='strict': raise self.loopmod.SpecFail(name)
        o['failed']+=1
        anys=None
        if r=='sat': anys=self.eval_anys(st,model)
        self.failures.append(Failure(name,kind,detail+(' [solver: %s]'%r),anys,self.where(st)))
        self.failed_names.add(name)
        # continue on the part of the path where the obligation holds
        r2,m2=self.check(st,c)
        if r2==z3.unsat: raise PathEnd('failed:'+name)
        self.add(st,c,m2)
        return False
    def eval_anys(self,st,model):
        out=[]
        for (name,bits,v) in st.anys:
            if v is None: out.append((name,bits,0)); continue
            if isinstance(v,(int,float)): out.append((name,bits,v)); continue
            if isinstance(model,dict):
                val=model.get(v.decl().name(),0)
                out.append((name,bits,val)); continue
            e=model.eval(v,model_completion=True)
            if z3.is_bv_value(e): out.append((name,bits,e.as_long()))
            elif z3.is_fp_value(e):
                b=z3.simplify(z3.fpToIEEEBV(e)); out.append((name,bits,b.as_long()))
            elif z3.is_true(e) or z3.is_false(e): out.append((name,bits,1 if z3.is_true(e) else 0))
            else: out.append((name,bits,0))
        return out
    # cells: off -> (n, val, kind) ; kind 'i' (int/BV of n*8 bits), 'p' Ptr, 'f' float
    def bytes_of(self,val,n,kind):
        """list of byte values (int or BV8), little endian"""
        if kind=='p':
            if val.o==0 and isint(val.off): val=val.off; kind='i'
            else: return None
        if kind=='f':
            if isinstance(val,float): val=int.from_bytes(struct.pack('<d' if n==8 else '<f',val),'little')
            else: val=z3.fpToIEEEBV(val)
        if isinstance(val,Ptr): return None
        if isint(val): return [(val>>(8*k))&255 for k in range(n)]
        return [norm(z3.simplify(z3.Extract(8*k+7,8*k,val)),8) for k in range(n)]
    def cell_at(self,o,off):
        """find the cell covering byte off -> (start,n,val,kind) or None"""
        c=o.cells
        for d in range(0,17):
            x=c.get(off-d)
            if x is not None:
                if x[0]>d: return (off-d,)+x
                return None if d>=16 else self._cell_at2(o,off,d+1)
        return None
    def _cell_at2(self,o,off,d0):
        c=o.cells
        for d in range(d0,17):
            x=c.get(off-d)
            if x is not None:
                return (off-d,)+x if x[0]>d else None
        return None
    def conv(self,val,kind,ty):
        """value of kind with matching size -> type"""
        if ty.k=='i':
            if kind=='i': 
                if ty.w==1: return self.to_i1(val)
                if ty.w<0: pass
                return val
            if kind=='p': return NULLINT(val)
            if kind=='f':
                if isinstance(val,float): return int.from_bytes(struct.pack('<d' if ty.w==64 else '<f',val),'little')
                return z3.fpToIEEEBV(val)
        if ty.k=='p':
            if kind=='p': return val
            if isinstance(val,Ptr): return val
            if isint(val):
                if val==0: return NULL
                return self.int2ptr(val)
            return Ptr(-2,val)  # integer-valued pointer
        if ty.k=='f':
            if kind=='f': return val
            if isint(val): return struct.unpack('<d' if ty.w==64 else '<f',int(val).to_bytes(ty.w//8,'little'))[0]
            if isinstance(val,Ptr): raise Unsupported('pointer read as float')
            return z3.fpBVToFP(val,F64 if ty.w==64 else z3.Float32())
        raise Unsupported('conv to %r'%ty)
    def to_i1(self,val):
        if isint(val): return val&1
        return normb(simp(z3.Extract(0,0,val)==1))
    def int2ptr(self,v):
        o=v>>32
        if 0<o<0x80000000: return Ptr(o,v&0xffffffff)
        return Ptr(-2,v)
    def ptr2int(self,p):
        if p.o==0 or p.o==-2: return p.off
        if isint(p.off): return (p.o<<32)+p.off
        return z3.BitVecVal(p.o<<32,64)+p.off
    def read_cell(self,st,o,off,ty):
        n=(ty.w+7)//8
        c=o.cells.get(off)
        if c is not None and c[0]==n: 
            v=self.conv(c[1],c[2],ty)
            return v
        # compose bytes
        parts=[]; any_def=False
        for k in range(n):
            x=self.cell_at(o,off+k)
            if x is None: parts.append(None)
            else:
                s,nn,val,kind=x; bs=self.bytes_of(val,nn,kind)
                if bs is None: raise Unsupported('partial read of a pointer in %s'%o.name)
                parts.append(bs[off+k-s]); any_def=True
        if o.zero: parts=[0 if p is None else p for p in parts]
        if not any_def and not o.zero:
            if o.kind=='opaque': raise Unsupported('read of opaque external object %s+%s'%(o.name,off))
            v=self.freshty('undef',ty)
            if ty.k!='p':
                w=self.wobj(st,o.id); w.cells[off]=(n,v if not (ty.k=='i' and ty.w==1) else z3.If(v,z3.BitVecVal(1,8),z3.BitVecVal(0,8)),'f' if ty.k=='f' else 'i')
            return v
        undef=False
        for k in range(n):
            if parts[k] is None: parts[k]=self.freshbv('undef',8); undef=True
        if undef:
            w=self.wobj(st,o.id)
            for k in range(n):
                if self.cell_at(w,off+k) is None: w.cells[off+k]=(1,parts[k],'i')
        if all(isint(p) for p in parts):
            v=0
            for k in range(n): v|=parts[k]<<(8*k)
        elif n==1: v=parts[0]
        else: v=norm(simp(z3.Concat(*[bv(p,8) for p in reversed(parts)])),8*n)
        if ty.k=='i' and ty.w%8 and ty.w!=1:
            v=v&M(ty.w) if isint(v) else z3.Extract(ty.w-1,0,v)
        return self.conv(v,'i',ty)
    def clear_range(self,o,off,n):
        c=o.cells
        for k in range(max(0,off-16),off+n):
            x=c.get(k)
            if x is None: continue
            nn,val,kind=x
            if k+nn<=off: continue
            del c[k]
            if k<off or k+nn>off+n:
                bs=self.bytes_of(val,nn,kind)
                if bs is None: continue      # remainder of a clobbered pointer is undefined
                for j in range(nn):
                    if not(off<=k+j<off+n): c[k+j]=(1,bs[j],'i')
    def write_cell(self,o,off,n,val,kind):
        c=o.cells; x=c.get(off)
        if x is not None and x[0]==n:
            c[off]=(n,val,kind); return
        self.clear_range(o,off,n)
        c[off]=(n,val,kind)
    def deref(self,st,p,n,what):
        """validity of an access of n bytes at p; returns the object"""
        if p.o<=0:
            if p.o==0 or p.o==-2:
                self.fail(st,'safe.null_dereference','%s through a null or invalid pointer'%what)
            else: self.fail(st,'safe.undefined_pointer','%s through an uninitialised pointer'%what)
            raise PathEnd('null dereference')
        o=self.obj(st,p.o)
        if o is None:
            self.fail(st,'safe.invalid_pointer',what); raise PathEnd('invalid pointer')
        if not o.alive:
            self.fail(st,'safe.use_after_free','%s of freed object %s'%(what,o.name)); raise PathEnd('use after free')
        if o.size is not None:
            if not isint(n):
                self.prove(st,'safe.out_of_bounds',z3.And(z3.ULE(bv(p.off,64),bv(o.size,64)),z3.ULE(n,bv(o.size,64)-bv(p.off,64))),'%s of symbolic length in %s'%(what,o.name),'safety')
                return o
            if isint(p.off):
                off=p.off if p.off<(1<<63) else p.off-(1<<64)
                if isint(o.size):
                    if off<0 or off+n>o.size:
                        self.fail(st,'safe.out_of_bounds','%s of %d bytes at offset %d of %s (size %s)'%(what,n,off,o.name,o.size)); raise PathEnd('out of bounds')
                else:
                    self.prove(st,'safe.out_of_bounds',z3.And(off>=0,z3.UGE(o.size,off+n)),what,'safety')
            else:
                self.prove(st,'safe.out_of_bounds',z3.And(z3.ULE(p.off,bv(o.size,64)-n),z3.UGE(bv(o.size,64),n)),'%s at symbolic offset of %s'%(what,o.name),'safety')
        return o
    def cands(self,st,p,o,n):
        g,r=p.al if p.al else (1,0)
        if g<1: g=1
        if not isint(o.size): raise Unsupported('symbolic offset in object of symbolic size')
        out=[k for k in range(r%g,o.size-n+1,g)]
        if len(out)>600: raise Unsupported('symbolic offset: too many candidates in %s'%o.name)
        return out
    def load(self,st,p,ty):
        if ty.k in 'sa':
            if ty.k=='s': return [self.load(st,self.padd(p,ty.offs[i]),e) for i,e in enumerate(ty.elems)]
            return [self.load(st,self.padd(p,i*ty.el.size),ty.el) for i in range(ty.n)]
        n=(ty.w+7)//8
        o=self.deref(st,p,n,'load')
        if o.kind=='region': return self.region_load(st,p,o,ty)
        if isint(p.off): return self.read_cell(st,o,p.off,ty)
        cs=self.cands(st,p,o,n)
        vals=[self.read_cell(st,o,k,ty) for k in cs]
        if ty.k=='p':
            # choose by forking
            for k,v in zip(cs[:-1],vals[:-1]):
                if self.choose(st,p.off==k): return v
            return vals[-1]
        r=vals[-1]
        if ty.k=='f':
            for k,v in reversed(list(zip(cs[:-1],vals[:-1]))): r=z3.If(p.off==k,fpv(v,ty.w),fpv(r,ty.w))
            return r
        for k,v in reversed(list(zip(cs[:-1],vals[:-1]))):
            if isint(v) and isint(r) and v==r: continue
            r=z3.If(p.off==k,bv(v,ty.w),bv(r,ty.w)) if ty.w>1 else z3.If(p.off==k,boolz(v),boolz(r))
        return r
    def store(self,st,p,v,ty):
        if ty.k in 'sa':
            if ty.k=='s':
                for i,e in enumerate(ty.elems): self.store(st,self.padd(p,ty.offs[i]),v[i],e)
            else:
                for i in range(ty.n): self.store(st,self.padd(p,i*ty.el.size),v[i],ty.el)
            return
        n=(ty.w+7)//8
        o=self.deref(st,p,n,'store')
        if o.ro: self.fail(st,'safe.write_to_constant','store to %s'%o.name); raise PathEnd('write to constant')
        if o.kind=='region': return self.region_store(st,p,o,v,ty)
        kind='p' if isinstance(v,Ptr) else ty.k
        if kind=='i' and ty.w==1: v=v if isint(v) else z3.If(v,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
        elif kind=='i' and ty.w%8: v=v if isint(v) else z3.ZeroExt(n*8-ty.w,v)
        if isint(p.off):
            o=self.wobj(st,p.o); self.write_cell(o,p.off,n,v,kind); return
        cs=self.cands(st,p,o,n)
        if kind!='i': 
            for k in cs:
                if self.choose(st,p.off==k):
                    self.write_cell(self.wobj(st,p.o),k,n,v,kind); return
            raise PathEnd('infeasible')
        w=L.Ty(); w.k='i'; w.w=n*8
        olds=[self.read_cell(st,o,k,w) for k in cs]
        o=self.wobj(st,p.o)
        for k,old in zip(cs,olds):
            self.write_cell(o,k,n,z3.If(p.off==k,bv(v,8*n),bv(old,8*n)),'i')
    def padd(self,p,d,al=None):
        if isint(d):
            if isint(p.off): return Ptr(p.o,(p.off+d)&M(64))
            a=p.al
            if a and a[0]>1: a=(a[0],(a[1]+d)%a[0])
            return Ptr(p.o,simp(p.off+d),a)
        # symbolic delta with alignment info (g): delta = g*k
        g=al or 1
        import math
        if isint(p.off): return Ptr(p.o,simp(bv(p.off,64)+d),(g,p.off%g))
        g0,r0=p.al if p.al else (1,0)
        g2=math.gcd(g,g0)
        return Ptr(p.o,simp(p.off+d),(g2,r0%g2 if g2 else 0))
    def memcpy(self,st,d,s,n):
        if isint(n) and n==0: return
        so=self.deref(st,s,n,'memcpy source'); do=self.deref(st,d,n,'memcpy destination')
        if so.kind=='region' or do.kind=='region': return self.region_copy(st,d,s,n)
        s=Ptr(s.o,self.concretize(st,s.off)); d=Ptr(d.o,self.concretize(st,d.off))
        items=[]; so_off=s.off
        if n<=4*len(so.cells)+64:
            k=0
            while k<n:
                x=so.cells.get(so_off+k)
                if x is not None and k+x[0]<=n: items.append((k,)+x); k+=x[0]; continue
                y=self.cell_at(so,so_off+k)
                if y is not None:
                    bs=self.bytes_of(y[2],y[1],y[3])
                    if bs is None: raise Unsupported('memcpy splits a pointer')
                    items.append((k,1,bs[so_off+k-y[0]],'i'))
                k+=1
        else:
            for off,x in so.cells.items():
                if off>=so_off and off+x[0]<=so_off+n: items.append((off-so_off,)+x)
                elif off<so_off+n and off+x[0]>so_off:
                    bs=self.bytes_of(x[1],x[0],x[2])
                    if bs is None: raise Unsupported('memcpy splits a pointer')
                    for j in range(x[0]):
                        if so_off<=off+j<so_off+n: items.append((off+j-so_off,1,bs[j],'i'))
        zero=so.zero
        do=self.wobj(st,d.o)
        if do.ro: self.fail(st,'safe.write_to_constant','memcpy to %s'%do.name); raise PathEnd('write to constant')
        self.clear_range(do,d.off,n)
        for k,nn,v,kd in items: do.cells[d.off+k]=(nn,v,kd)
        if zero or do.zero:
            cov=set()
            for k,nn,_,_ in items: cov.update(range(k,k+nn))
            k=0
            while k<n:
                if k in cov: k+=1; continue
                if zero:
                    j=1
                    while j<8 and k+j<n and (k+j) not in cov and (k%8)+j<8: j+=1
                    if j in(1,2,4,8): do.cells[d.off+k]=(j,0,'i'); k+=j
                    else: do.cells[d.off+k]=(1,0,'i'); k+=1
                else:
                    do.cells[d.off+k]=(1,self.freshbv('undef',8),'i'); k+=1
    def memset(self,st,d,v,n):
        if n==0: return
        o=self.deref(st,d,n,'memset')
        off=self.concretize(st,d.off); o=self.wobj(st,d.o)
        if off==0 and o.size==n and isint(v) and v==0: o.cells={}; o.zero=True; return
        self.clear_range(o,off,n)
        if isint(v):
            k=0
            while k<n:
                w=8
                while (off+k)%w or k+w>n: w//=2
                o.cells[off+k]=(w,int.from_bytes(bytes([v&255])*w,'little'),'i'); k+=w
        else:
            for k in range(n): o.cells[off+k]=(1,v,'i')
    # ---------------------------------------------------------------- regions: arrays of 8-byte elements of any length
    # An object of kind 'region' has a symbolic size; its contents are an SMT array from element index to 64-bit value.
    # Facts over all elements (copies, comparisons) are kept in st.uni and instantiated at every index that occurs.
    IDX=61
    def region(self,st,size,name):
        p=self.alloc(st,size,name); o=st.mem[p.o]; o.kind='region'
        self.fresh+=1; o.arr=z3.Array(f'region!{self.fresh}',z3.BitVecSort(self.IDX),z3.BitVecSort(64))
        st.ghost['regions']=True
        return p
    def eighth(self,e):
        """e/8 where e is a sum of literal multiples of eight, as an index; else None"""
        if z3.is_bv_value(e): v=e.as_long(); return z3.BitVecVal(v>>3,self.IDX) if v%8==0 else None
        k=e.decl().kind()
        if k==z3.Z3_OP_BADD:
            r=None
            for x in e.children():
                y=self.eighth(x)
                if y is None: return None
                r=y if r is None else r+y
            return r
        if k==z3.Z3_OP_BMUL and e.num_args()==2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long()%8==0:
            c=e.arg(0).as_long()>>3; t=z3.Extract(self.IDX-1,0,e.arg(1)); return t if c==1 else t*z3.BitVecVal(c,self.IDX)
        if k==z3.Z3_OP_CONCAT and z3.is_bv_value(e.arg(e.num_args()-1)) and e.arg(e.num_args()-1).size()>=3 and e.arg(e.num_args()-1).as_long()%8==0:
            return z3.Extract(63,3,e)
        return None
    def ridx(self,st,off):
        off=bv(off,64)
        q=self.eighth(simp(off))
        if q is not None: return simp(q)
        al=simp(z3.Extract(2,0,off)==0)
        if not z3.is_true(al):
            r,_=self.check(st,z3.Not(al))
            if r!=z3.unsat: raise Unsupported('unaligned access to a region')
        return simp(z3.Extract(63,3,off))
    def region_load(self,st,p,o,ty):
        if (ty.w+7)//8!=8 or ty.k=='p': raise Unsupported('access of a region as %r'%ty.k)
        v=z3.Select(o.arr,self.ridx(st,p.off))
        return self.conv(simp(v),'i',ty)
    def region_store(self,st,p,o,v,ty):
        if (ty.w+7)//8!=8 or isinstance(v,Ptr): raise Unsupported('store to a region of other than an 8-byte value in '+st.frames[-1].fn.dem[:120])
        if ty.k=='f': v=self.conv(v,'f',L.Ty.int64())
        i=self.ridx(st,p.off); w=self.wobj(st,p.o); w.arr=z3.Store(o.arr,i,bv(v,64))
    def region_copy(self,st,d,s,n):
        so=self.obj(st,s.o); do=self.obj(st,d.o)
        if so.kind!='region' or do.kind!='region': raise Unsupported('copy between a region and another object')
        di=self.ridx(st,d.off); si=self.ridx(st,s.off); k=self.ridx(st,n)
        self.fresh+=1; new=z3.Array(f'region!{self.fresh}',z3.BitVecSort(self.IDX),z3.BitVecSort(64))
        src,old=so.arr,do.arr
        def fact(j):
            inside=z3.And(z3.UGE(j,di),z3.ULT(j-di,k))
            return z3.Select(new,j)==z3.If(inside,z3.Select(src,simp(j-di+si)),z3.Select(old,j))
        st.uni=st.uni+(fact,)
        self.wobj(st,d.o).arr=new
    def region_eq(self,st,a,b,n):
        """the first n bytes at a and b are equal (a boolean defined by all elements)"""
        ao=self.deref(st,a,n,'comparison'); bo=self.deref(st,b,n,'comparison')
        if ao.kind!='region' or bo.kind!='region': raise Unsupported('comparison of a region with another object')
        ai=self.ridx(st,a.off); bi=self.ridx(st,b.off); k=self.ridx(st,n)
        r=self.freshb('equal'); w=self.freshbv('differs',self.IDX); A,B=ao.arr,bo.arr
        self.add(st,z3.Or(r,z3.And(z3.ULT(w,k),z3.Select(A,simp(ai+w))!=z3.Select(B,simp(bi+w)))))
        st.uni=st.uni+((lambda j: z3.Implies(z3.And(r,z3.ULT(j,k)),z3.Select(A,simp(ai+j))==z3.Select(B,simp(bi+j)))),)
        return r
    def region_lcp(self,st,a,n1,b,n2):
        """length of the longest common prefix of two element ranges (n1, n2 elements)"""
        ao=self.obj(st,a.o) if a.o>0 else None; bo=self.obj(st,b.o) if b.o>0 else None
        if (ao is not None and ao.kind!='region') or (bo is not None and bo.kind!='region'): raise Unsupported('comparison of a region with another object')
        m=self.freshbv('prefix',self.IDX)
        x1=simp(z3.Extract(self.IDX-1,0,bv(n1,64))); x2=simp(z3.Extract(self.IDX-1,0,bv(n2,64)))
        c=[z3.ULE(m,x1),z3.ULE(m,x2)]
        if ao is not None and bo is not None:
            ai=self.ridx(st,a.off); bi=self.ridx(st,b.off); A,B=ao.arr,bo.arr
            c.append(z3.Or(m==x1,m==x2,z3.Select(A,simp(ai+m))!=z3.Select(B,simp(bi+m))))
            st.uni=st.uni+((lambda j: z3.Implies(z3.ULT(j,m),z3.Select(A,simp(ai+j))==z3.Select(B,simp(bi+j)))),)
        else: c.append(m==0)
        self.add(st,z3.And(*c))
        return z3.ZeroExt(64-self.IDX,m)
    def instances(self,st,goals):
        out=[]; seen=set(); done=set(); todo=list(st.pc)+goals
        for rnd in range(3):
            terms={}; iters={}
            stack=list(todo)
            while stack:
                e=stack.pop()
                if e.get_id() in seen: continue
                seen.add(e.get_id())
                if z3.is_app(e):
                    if e.decl().kind()==z3.Z3_OP_SELECT: terms[e.arg(1).get_id()]=e.arg(1)
                    elif e.decl().kind()==z3.Z3_OP_STORE: terms[e.arg(1).get_id()]=e.arg(1)
                    elif e.num_args()==1 and e.decl().name().startswith('fold!'): iters[e.arg(0).get_id()]=e.arg(0)
                    stack.extend(e.children())
            terms={k:v for k,v in terms.items() if k not in done}
            iters={k:v for k,v in iters.items() if k not in done}
            if not terms and not iters: break
            done|=set(terms)|set(iters); todo=[]
            for t in terms.values():
                for f in st.uni:
                    if type(f) is not tuple: todo.append(f(t))
                    elif f[0]=='idx': todo.append(f[1](t))
            for t in iters.values():
                for f in st.uni:
                    if type(f) is tuple and f[0]=='iter': todo.append(f[1](t))
            self.keep=getattr(self,'keep',[]); self.keep+=todo
            out+=todo
        return out
    # ---------------------------------------------------------------- globals & constants
    def global_ptr(self,st,name):
        name=self.mod.alias.get(name,name)
        i=self.gobj.get(name)
        if i is None:
            if name in self.mod.fns: return self.fn_ptr(name)
            g=self.mod.gvs.get(name)
            i=self.newid(); self.gobj[name]=i
            ty=self.mod.ty(L.GVType(g)) if g else None
            if g is None or L.IsDecl(g):
                o=Obj(i,None if ty is None else (ty.size or None),name); o.kind='opaque'
                if name.startswith('_ZTV') or name.startswith('_ZTI'): o.size=None
                if name=='__libc_single_threaded': o.kind='global'; o.cells[0]=(1,1,'i')
                self.base[i]=o
            else:
                o=Obj(i,ty.size,name); o.kind='global'; self.base[i]=o
                self.fill(o,0,self.mod.const(L.Init(g)),ty)
                o.ro=bool(L.IsGlobalConst(g))
        self.need_init(name)
        return Ptr(i,0)
    def need_init(self,name):
        if self.gvinit is None:
            self.gvinit={}
            for n in self.mod.fns:
                if n.startswith('__cxx_global_var_init'):
                    f=self.mod.fn(n)
                    for b in f.blocks:
                        for ins in b:
                            for g in self.gv_refs(ins): self.gvinit.setdefault(g,n)
        f=self.gvinit.get(name)
        if f and f not in self.preinit and not self.in_init:
            g=self.mod.gvs.get(name)
            if g and not L.IsDecl(g) and not L.IsGlobalConst(g) and not name.startswith('_ZTV') and name!='__dso_handle' and not name.startswith('_ZGV') and 'ios_base' not in self.mod.dem.get(name,''):
                raise NeedInit(f)
    in_init=False
    def gv_refs(self,ins):
        # only the object being initialised: first pointer operand of stores / calls
        out=[]
        def rec(o):
            if isinstance(o,tuple):
                if o and o[0]=='gv': out.append(o[1])
                else:
                    for x in o: rec(x)
            elif isinstance(o,list):
                for x in o: rec(x)
        if ins.op in('call','invoke'):
            if ins.a[0][0]=='fn' and ins.a[0][1]=='__cxa_atexit': return []
            if ins.a[1]: rec(ins.a[1][0])
        elif ins.op=='store': rec(ins.a[1])
        return out
    def fn_ptr(self,name):
        i=self.fobj.get(name)
        if i is None:
            i=self.newid(); self.fobj[name]=i; self.fobj_name[i]=name
            o=Obj(i,0,'function '+name); o.kind='fn'; self.base[i]=o
        return Ptr(i,0)
    def fill(self,o,off,c,ty):
        k=c[0]
        if k=='zero':
            if off==0 and o.size==ty.size: o.zero=True
            else: self.memfill0(o,off,ty.size)
        elif k=='bytes':
            w=ty.el.size; b=c[2]
            for j in range(0,len(b),w): o.cells[off+j]=(w,int.from_bytes(b[j:j+w],'little'),'i')
        elif k=='agg':
            for j,e in enumerate(c[2]):
                if ty.k=='s': self.fill(o,off+ty.offs[j],e,ty.elems[j])
                else: self.fill(o,off+j*ty.el.size,e,ty.el)
        elif k=='undef': pass
        else:
            v=self.cval(None,c,ty); n=(ty.w+7)//8
            o.cells[off]=(n,v,'p' if isinstance(v,Ptr) else ty.k)
    def memfill0(self,o,off,n):
        k=0
        while k<n:
            w=8
            while (off+k)%w or k+w>n: w//=2
            o.cells[off+k]=(w,0,'i'); k+=w
    def cval(self,st,c,ty=None):
        k=c[0]
        if k=='k': return c[1]
        if k=='null': return NULL
        if k=='fn': return self.fn_ptr(c[1])
        if k=='gv': return self.global_ptr(st,c[1])
        if k=='undef': return self.undef(c[1])
        if k=='zero': return self.zero(c[1])
        if k=='cgep':
            base=self.cval(st,c[2][0]); return self.gep(st,c[1],base,[self.cval(st,x) for x in c[2][1:]],None)
        if k=='agg':
            return [self.cval(st,x) for x in c[2]]
        if k=='bytes':
            w=c[1].el.size; return [int.from_bytes(c[2][j:j+w],'little') for j in range(0,len(c[2]),w)]
        if k=='cexpr':
            op,t,ops,tys,pred=c[1:]
            vs=[self.cval(st,x) for x in ops]
            if op=='ptrtoint': return vs[0]
            if op=='inttoptr': return vs[0] if isinstance(vs[0],Ptr) else (NULL if vs[0]==0 else self.int2ptr(vs[0]))
            if op in('sub','add','mul','xor','shl'): return self.arith(op,vs[0],vs[1],t.w)
            if op=='icmp': return self.icmp(st,pred,vs[0],vs[1],tys[0])
            if op=='trunc': return vs[0]&M(t.w)
            raise Unsupported('constant expression '+op)
        if k=='meta': return None
        raise Unsupported('constant '+k)
    def undef(self,t):
        if t.k=='s': return [self.undef(e) for e in t.elems]
        if t.k=='a': return [self.undef(t.el) for _ in range(t.n)]
        if t.k=='i' and t.w<=64: return 0
        return self.freshty('undef',t)
    def zero(self,t):
        if t.k=='i': return 0
        if t.k=='p': return NULL
        if t.k=='f': return 0.0
        if t.k=='s': return [self.zero(e) for e in t.elems]
        if t.k in 'aV': return [self.zero(t.el) for _ in range(t.n)]
        raise Unsupported('zero')
    def val(self,st,o):
        if o[0]=='r':
            v=st.frames[-1].regs[o[1]]
            if v is None: raise Unsupported('read of an unset register in '+st.frames[-1].fn.dem[:100])
            return v
        return self.cval(st,o)
    # ---------------------------------------------------------------- arithmetic
    def arith(self,op,a,b,w,exact=False,st=None):
        if w==1:
            if op in('and','mul'):
                if isint(a): return b if a else 0
                if isint(b): return a if b else 0
                return z3.And(a,b)
            if op=='or':
                if isint(a): return 1 if a else b
                if isint(b): return 1 if b else a
                return z3.Or(a,b)
            if op in('xor','add','sub'):
                if isint(a) and isint(b): return (a^b)&1
                if isint(a): a,b=b,a
                if isint(b): return znot(a) if b else a
                return z3.Xor(a,b)
            a=a if isint(a) else z3.If(a,z3.BitVecVal(1,1),z3.BitVecVal(0,1)); b=b if isint(b) else z3.If(b,z3.BitVecVal(1,1),z3.BitVecVal(0,1))
        if op in('and','or','xor'):
            x=b01(a); y=b01(b)
            if x is not None and y is not None and not(isint(x) and isint(y)):
                r=self.arith(op,x,y,1)
                return r if isint(r) else z3.If(r,z3.BitVecVal(1,w),z3.BitVecVal(0,w))
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=='add':
                if isinstance(b,Ptr): a,b=b,a
                if not isinstance(b,Ptr):
                    return self.padd(a,b) if a.o not in(0,-2) else self.arith(op,self.ptr2int(a),b,w)
            if op=='sub':
                if isinstance(a,Ptr) and isinstance(b,Ptr):
                    if a.o==b.o: return self.arith('sub',a.off,b.off,w)
                    return self.arith('sub',self.ptr2int(a),self.ptr2int(b),w)
                if isinstance(a,Ptr): return self.padd(a,self.arith('sub',0,b,64))
            if op=='xor' and isinstance(a,Ptr) and isinstance(b,Ptr) and a.o==b.o and isint(a.off) and isint(b.off) and a.off==b.off: return 0
            if op=='and' and isint(b) and isinstance(a,Ptr) and isint(a.off) and a.o>0:
                if b==M(64)-15 or (b&(b+1))==0 or True:
                    return self.arith(op,self.ptr2int(a),b,w)
            if isinstance(a,Ptr): a=self.ptr2int(a)
            if isinstance(b,Ptr): b=self.ptr2int(b)
        if isint(a) and isint(b):
            m=M(w)
            if op=='add': return (a+b)&m
            if op=='sub': return (a-b)&m
            if op=='mul': return (a*b)&m
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)&m if b<w else 0
            if op=='lshr': return a>>b if b<w else 0
            if op=='ashr': return (sgn(a,w)>>min(b,w-1))&m
            if op=='udiv': return a//b if b else m
            if op=='urem': return a%b if b else a
            if op=='sdiv':
                x,y=sgn(a,w),sgn(b,w)
                if y==0: return 1 if x<0 else m
                q=abs(x)//abs(y); return (q if (x<0)==(y<0) else -q)&m
            if op=='srem':
                x,y=sgn(a,w),sgn(b,w)
                if y==0: return a
                r=abs(x)%abs(y); return (-r if x<0 else r)&m
        if isint(b):
            if b==0 and op in('add','sub','or','xor','shl','lshr','ashr'): return a
            if b==1 and op in('mul','udiv','sdiv'): return a
            if b==0 and op in('mul','and'): return 0
            if b==M(w) and op=='and': return a
        if isint(a):
            if a==0 and op in('add','or','xor'): return b
            if a==0 and op in('mul','and'): return 0
            if a==1 and op=='mul': return b
        x,y=bv(a,w),bv(b,w)
        if op=='add': r=x+y
        elif op=='sub': r=x-y
        elif op=='mul': r=x*y
        elif op=='and': r=x&y
        elif op=='or':
            r=join(x,y)
            if r is None: r=join(y,x)
            if r is None: r=x|y
        elif op=='xor': r=x^y
        elif op=='shl': r=x<<y
        elif op=='lshr': r=z3.LShR(x,y)
        elif op=='ashr': r=x>>y
        elif op=='udiv': r=z3.UDiv(x,y)
        elif op=='urem': r=z3.URem(x,y)
        elif op=='sdiv': r=x/y
        elif op=='srem': r=z3.SRem(x,y)
        else: raise Unsupported(op)
        return r
    def icmp(self,st,pred,a,b,ty):
        w=ty.w
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if not isinstance(a,Ptr): a=Ptr(-2,a) if not(isint(a) and a==0) else NULL
            if not isinstance(b,Ptr): b=Ptr(-2,b) if not(isint(b) and b==0) else NULL
            if a.o==-1 or b.o==-1: return self.freshb('undefptr')
            if a.o==b.o: a,b,w=a.off,b.off,64
            elif pred in('eq','ne') and a.o!=-2 and b.o!=-2:
                return 1 if pred=='ne' else 0
            else: a,b,w=self.ptr2int(a),self.ptr2int(b),64
        if w==1:
            a=a if isint(a) else (z3.If(a,z3.BitVecVal(1,1),z3.BitVecVal(0,1)) if pred not in('eq','ne') else a)
            b=b if isint(b) else (z3.If(b,z3.BitVecVal(1,1),z3.BitVecVal(0,1)) if pred not in('eq','ne') else b)
            if pred in('eq','ne') and not(isint(a) and isint(b)):
                if isint(a): a,b=b,a
                if isint(b): r=a if b else z3.Not(a)
                else: r=a==b
                return nsimp(r if pred=='eq' else z3.Not(r))
        if isint(a) and isint(b):
            if pred=='eq': r=a==b
            elif pred=='ne': r=a!=b
            elif pred[0]=='u': r={'ugt':a>b,'uge':a>=b,'ult':a<b,'ule':a<=b}[pred]
            else:
                x,y=sgn(a,w),sgn(b,w); r={'sgt':x>y,'sge':x>=y,'slt':x<y,'sle':x<=y}[pred]
            return int(r)
        if pred in('eq','ne') and isint(b) and not isint(a) and b01(a) is not None:
            t=b01(a)
            if b not in(0,1): return int(pred=='ne')
            return t if (b==1)==(pred=='eq') else znot(t)
        x,y=bv(a,w),bv(b,w)
        if pred=='eq': r=x==y
        elif pred=='ne': r=x!=y
        elif pred=='ugt': r=z3.UGT(x,y)
        elif pred=='uge': r=z3.UGE(x,y)
        elif pred=='ult': r=z3.ULT(x,y)
        elif pred=='ule': r=z3.ULE(x,y)
        elif pred=='sgt': r=x>y
        elif pred=='sge': r=x>=y
        elif pred=='slt': r=x<y
        else: r=x<=y
        return nsimp(r)
    def fcmp(self,pred,a,b,w):
        if isinstance(a,float) and isinstance(b,float):
            un=a!=a or b!=b
            base={'oeq':a==b,'ogt':a>b,'oge':a>=b,'olt':a<b,'ole':a<=b,'one':(a!=b) and not un,'ord':not un,'uno':un,'ueq':un or a==b,'ugt':un or a>b,'uge':un or a>=b,'ult':un or a<b,'ule':un or a<=b,'une':a!=b or un,'true':True,'false':False}
            return int(base[pred])
        x,y=fpv(a,w),fpv(b,w)
        un=z3.Or(z3.fpIsNaN(x),z3.fpIsNaN(y))
        f={'eq':z3.fpEQ(x,y),'gt':z3.fpGT(x,y),'ge':z3.fpGEQ(x,y),'lt':z3.fpLT(x,y),'le':z3.fpLEQ(x,y)}
        if pred=='true': return 1
        if pred=='false': return 0
        if pred=='ord': return normb(simp(z3.Not(un)))
        if pred=='uno': return normb(simp(un))
        if pred=='une': return normb(simp(z3.Not(f['eq'])))
        if pred=='one': return normb(simp(z3.And(z3.Not(un),z3.Not(f['eq']))))
        e=f[pred[1:]]
        if pred[0]=='o': return normb(simp(e))
        return normb(simp(z3.Or(un,e)))
    def gep(self,st,ty,base,idx,itys):
        if isinstance(base,Ptr): p=base
        else: p=self.int2ptr(base) if isint(base) and base else (NULL if isint(base) else Ptr(-2,base))
        first=True; cur=ty
        for j,i in enumerate(idx):
            iw=64
            if itys is not None: iw=itys[j].w
            if first:
                sz=cur.size; first=False
            elif cur.k=='s':
                p=self.padd(p,cur.offs[i]); cur=cur.elems[i]; continue
            else:
                sz=cur.el.size; cur=cur.el
            if isinstance(i,Ptr): i=self.ptr2int(i)
            if isint(i): p=self.padd(p,sgn(i,iw)*sz) if sgn(i,iw)*sz else p
            else:
                e=i if iw==64 else z3.SignExt(64-iw,i)
                o=self.obj(st,p.o) if p.o>0 and st is not None else None
                p=self.padd(p,e*sz if sz!=1 else e,sz)
        return p
    # ---------------------------------------------------------------- control
    def push(self,st,fn,args,call):
        f=Frame(); f.fn=fn; f.block=0; f.prev=-1; f.idx=0; f.regs=[None]*fn.nregs; f.call=call; f.allocas=[]; f.tag=None
        for s,a in zip(fn.params,args): f.regs[s]=a
        st.frames.append(f)
        self.fn_seen[fn.name]=self.fn_seen.get(fn.name,0)+1
        if len(st.frames)>self.opts.get('maxdepth',400): raise Unsupported('call depth exceeded (unbounded recursion?) in '+fn.dem[:120])
    def goto(self,st,b):
        f=st.frames[-1]; f.prev=f.block; f.block=b; f.idx=0
        blk=f.fn.blocks[b]
        if blk and blk[0].op=='phi':
            vals=[]
            for ins in blk:
                if ins.op!='phi': break
                vals.append((ins.dst,self.val(st,ins.a[0][f.prev])))
            for d,v in vals: f.regs[d]=v
            f.idx=len(vals)
        if 'regions' in st.ghost:
            body=self.loopmod.loops_of(f.fn).get(b)
            if body is not None: st.enter=(len(st.frames),b,f.prev in body)
    def ret(self,st,v):
        f=st.frames.pop()
        for i in f.allocas:
            o=self.wobj(st,i); o.alive=False; o.cells={}
        if not st.frames: raise PathEnd('done')
        g=st.frames[-1]
        if f.tag: self.B.on_return(self,st,f,v)
        ins=f.call
        if ins.dst is not None and ins.ty.k!='v': g.regs[ins.dst]=v
        if ins.a[3]: self.goto(st,ins.a[3][0])
    def finish_call(self,st,ins,v):
        """builtin call finished normally"""
        g=st.frames[-1]
        if ins.dst is not None and ins.ty.k!='v': g.regs[ins.dst]=v
        if ins.op=='invoke': self.goto(st,ins.a[3][0])
        else: g.idx+=1
    def bases(self,ti):
        """all base type infos of ti (itself included) with offset"""
        out=[(ti,0)]
        g=self.mod.gvs.get(ti)
        if g is None or L.IsDecl(g):
            b=STDBASE.get(ti)
            if b: out+=self.bases(b)
            return out
        c=self.mod.const(L.Init(g))
        if c[0]!='agg': return out
        e=c[2]
        if len(e)==3 and e[2][0]=='gv': out+=self.bases(e[2][1])
        elif len(e)>3:
            for k in range(4,len(e),2):
                if e[k][0]=='gv':
                    off=e[k+1][1]
                    so=sgn(off,64)>>8
                    out+=[(t,o+so) for t,o in self.bases(e[k][1])]
        return out
    def bases_of(self,st,p,ti,I64,PT):
        """all base subobjects (address) of the object of class ti at p; virtual bases through its vtable"""
        out=[(ti,p)]
        g=self.mod.gvs.get(ti)
        if g is None or L.IsDecl(g):
            b=STDBASE.get(ti)
            return out+(self.bases_of(st,p,b,I64,PT) if b else [])
        c=self.mod.const(L.Init(g))
        if c[0]!='agg': return out
        e=c[2]
        if len(e)==3 and e[2][0]=='gv': out+=self.bases_of(st,p,e[2][1],I64,PT)
        elif len(e)>3:
            for k in range(4,len(e),2):
                if e[k][0]!='gv': continue
                fl=e[k+1][1]; so=sgn(fl,64)>>8
                if fl&1:
                    off=self.load(st,self.padd(self.load(st,p,PT),so),I64)
                    if isinstance(off,Ptr): off=self.ptr2int(off)
                    q=self.padd(p,sgn(off,64))
                else: q=self.padd(p,so)
                out+=self.bases_of(st,q,e[k][1],I64,PT)
        return out
    def throw(self,st,exc,ti):
        """unwind from the current frame's current instruction"""
        first=True
        while st.frames:
            f=st.frames[-1]
            ins=f.fn.blocks[f.block][f.idx] if first else None
            call=ins if first else pend
            if call is not None and call.op=='invoke':
                ub=call.a[3][1]
                blk=f.fn.blocks[ub]
                lp=[x for x in blk if x.op=='landingpad'][0]
                sel=None
                bs=dict(reversed(self.bases(ti)))
                for kind,c in lp.a[1]:
                    if kind=='filter': raise Unsupported('exception filter')
                    if c[0]=='null': sel=(self.typeid(None),0); break
                    if c[1] in bs: sel=(self.typeid(c[1]),bs[c[1]]); break
                if sel is None and lp.a[0]: sel=(0,0)
                if sel is not None:
                    self.goto(st,ub)
                    g=st.frames[-1]
                    g.regs[lp.dst]=[exc,sel[0]]
                    st.ghost['adj%d'%exc.o]=sel[1]
                    # skip to after landingpad
                    g.idx=[k for k,x in enumerate(blk) if x.op=='landingpad'][0]+1
                    return
            st.frames.pop()
            for i in f.allocas:
                o=self.wobj(st,i); o.alive=False; o.cells={}
            if f.tag: self.B.on_unwind(self,st,f)
            pend=f.call; first=False
        st.frames=[]
        self.uncaught(st,ti)
    def uncaught(self,st,ti):
        name='safe.no_unexpected_exception'
        self.prove(st,name,z3.BoolVal(False),'exception %s escapes'%self.mod.dem.get(ti,ti),'safety')
        raise PathEnd('uncaught')
    def typeid(self,ti):
        if ti is None: return 1
        return (abs(hash(ti))%0x3fffffff)+2
    # ---------------------------------------------------------------- run
    def run(self,fname,setup=None):
        while True:
            try:
                return self._run(fname,setup)
            except NeedInit as e:
                self.preinit.append(e.fn)
                def initorder(n):
                    m=re.search(r'\.(\d+)$',n); return int(m.group(1)) if m else 0
                self.preinit.sort(key=initorder)
                self.reset()
    def reset(self):
        self.obl={}; self.covers={}; self.failures=[]; self.failed_names=set(); self.paths=0; self.path_kinds={}
        self.base={i:o for i,o in self.base.items()}
    def _run(self,fname,setup):
        fn=self.mod.fn(fname)
        if fn is None or fn.decl: raise Unsupported('no harness '+fname)
        st=State()
        if self.preinit:
            self.in_init=True
            for n in self.preinit:
                self.push(st,self.mod.fn(n),[],None)
                res=self.drive([st],stop_on_empty=True)
                if len(res)!=1: raise Unsupported('global initialiser %s has %d outcomes'%(n,len(res)))
                st=res[0]
            self.in_init=False
        if setup: setup(self,st)
        self.push(st,fn,[],None)
        self.drive([st])
    def drive(self,work,stop_on_empty=False):
        finals=[]
        while work:
            st=work.pop()
            if self.deadline and time.time()>self.deadline: raise Unsupported('time limit of the harness reached')
            try:
                nxt=self.step(st)
                work.extend(reversed(nxt))
            except PathEnd as e:
                if e.why=='done' and stop_on_empty: finals.append(st); continue
                self.paths+=1; k=e.why.split(':')[0]; self.path_kinds[k]=self.path_kinds.get(k,0)+1
                if self.paths>self.maxpaths: raise Unsupported('path limit reached')
        return finals
    def step(self,st):
        """run until the next block transition or fork; returns successor states"""
        while True:
            if st.enter is not None or st.watch:
                r=self.loop_event(st)
                if r is not None: return r
            f=st.frames[-1]; ins=f.fn.blocks[f.block][f.idx]
            self.stats['instrs']+=1
            try:
                r=self.execi(st,f,ins)
            except Fork as e:
                if ins.op in('br','switch') and st.merge and e.cond is not None:
                    m=self.merge_branch(st,f,ins,e)
                    if m is not None: return m
                return list(self.fork_states(st,e))
            except ForkMany as e:
                out=[]
                for c,key,val in e.conds:
                    s=st.clone(); self.add(s,c); s.decided[key]=val; out.append(s)
                return out
            if r is not None: return r
    def loop_event(self,st):
        e=st.enter; st.enter=None
        if st.watch:
            d,H,body=st.watch[-1]
            if len(st.frames)<d or len(st.frames)==d and st.frames[-1].block not in body: st.arrived='exit'; st.enter=e; return [st]
            if e is not None and e[2] and e[0]==d and e[1]==H: st.arrived='back'; return [st]
        if e is not None and e[0]==len(st.frames) and 'regions' in st.ghost:
            f=st.frames[-1]
            force=False
            if e[2]:
                if st.loopcnt.get((len(st.frames),id(f.fn),e[1]),0)!=64: return None
                force=True
            return self.loopmod.infer(self,st,force)
        return None
    # --------------------------------------------------------------- merging at join points
    def cfg(self,fn):
        if fn.ipdom is not None: return
        n=len(fn.blocks); succ=[]
        for b in fn.blocks:
            t=b[-1]
            if t.op=='br': s=list(t.a[1:])
            elif t.op=='switch': s=[t.a[2]]+[x[1] for x in t.a[3]]
            elif t.op=='invoke': s=[t.a[3][0],t.a[3][1]]
            else: s=[]
            succ.append(s)
        EXIT=n
        # post-dominators ignoring unwind edges and unreachable/resume exits
        exits=[i for i,b in enumerate(fn.blocks) if b[-1].op=='ret']
        succ2=[]
        for i,b in enumerate(fn.blocks):
            t=b[-1]
            if t.op=='invoke': succ2.append([t.a[3][0]])
            elif t.op=='ret': succ2.append([EXIT])
            else: succ2.append(succ[i])
        canexit=set(exits); ch=True
        while ch:
            ch=False
            for i in range(n):
                if i not in canexit and any(s in canexit for s in succ2[i]): canexit.add(i); ch=True
        full=(1<<(n+1))-1
        pd=[full]*(n+1); pd[EXIT]=1<<EXIT; ch=True
        while ch:
            ch=False
            for i in range(n-1,-1,-1):
                if i not in canexit: continue
                m=full
                for s in succ2[i]:
                    if s==EXIT or s in canexit: m&=pd[s]
                m|=1<<i
                if m!=pd[i]: pd[i]=m; ch=True
        ip=[None]*n
        for i in range(n):
            if i not in canexit: continue
            cand=[j for j in range(n) if j!=i and pd[i]>>j&1]
            for j in cand:
                if all((pd[j]>>k&1) for k in cand): ip[i]=j; break
        fn.ipdom=ip
        # liveness
        use=[set() for _ in range(n)]; dfn=[set() for _ in range(n)]; phiuse=[{} for _ in range(n)]
        def regs(o,acc):
            if isinstance(o,tuple):
                if len(o)==2 and o[0]=='r': acc.add(o[1])
                else:
                    for x in o: regs(x,acc)
            elif isinstance(o,list):
                for x in o: regs(x,acc)
        for i,b in enumerate(fn.blocks):
            for ins in b:
                if ins.op=='phi':
                    for p,v in ins.a[0].items():
                        if v[0]=='r': phiuse[p].setdefault(i,set()).add(v[1])
                else:
                    acc=set(); regs(ins.a,acc); use[i]|=(acc-dfn[i])
                if ins.dst is not None: dfn[i].add(ins.dst)
        live=[set() for _ in range(n)]; ch=True
        while ch:
            ch=False
            for i in range(n-1,-1,-1):
                out=set()
                for s in succ[i]:
                    out|=live[s]; out|=phiuse[i].get(s,set())
                nl=use[i]|(out-dfn[i])
                if nl!=live[i]: live[i]=nl; ch=True
        # registers defined by phis of block i are live at its start (after phi evaluation)
        for i,b in enumerate(fn.blocks):
            out=set()
            for s in succ[i]:
                out|=live[s]; out|=phiuse[i].get(s,set())
            acc=set()
            for ins in b:
                if ins.op=='phi': acc.add(ins.dst)
            live[i]=live[i]|acc
        fn.loops=live
    def merge_branch(self,st,f,ins,e):
        self.cfg(f.fn)
        J=f.fn.ipdom[f.block]
        if J is None: return None
        a,b=self.fork_states(st,e)
        d=len(a.frames); npc=len(a.pc)-1
        fnid=id(f.fn)
        arrived=[]; escaped=[]
        for s in (a,b):
            work=[s]; got=[]
            while work:
                x=work.pop()
                if self.deadline and time.time()>self.deadline: raise Unsupported('time limit of the harness reached')
                try: nx=self.step(x)
                except PathEnd as pe:
                    self.paths+=1; k=pe.why.split(':')[0]; self.path_kinds[k]=self.path_kinds.get(k,0)+1
                    continue
                for y in nx:
                    if y.arrived or len(y.frames)<d: escaped.append(y)
                    elif len(y.frames)==d and y.frames[-1].block==J and y.frames[-1].prev>=0 and self.at_start(y): arrived.append(y)
                    else: work.append(y)
        merged=[]
        for s in arrived:
            for k,m in enumerate(merged):
                r=self.merge2(m,s,npc,d,J)
                if r is not None: merged[k]=r; break
            else: merged.append(s)
        return merged+escaped
    def at_start(self,st):
        f=st.frames[-1]; blk=f.fn.blocks[f.block]
        k=0
        while k<len(blk) and blk[k].op=='phi': k+=1
        return f.idx==k
    def merge2(self,a,b,npc,d,J):
        if len(a.anys)!=len(b.anys) or any(x[2] is not y[2] for x,y in zip(a.anys,b.anys)): return None
        if 'text' in a.ghost and {k:v for k,v in a.ghost.items() if isinstance(k,tuple)}!={k:v for k,v in b.ghost.items() if isinstance(k,tuple)}: return None
        if a.caught!=b.caught or a.merge!=b.merge or a.uni is not b.uni: return None
        if a.pc[:npc]!=b.pc[:npc] and any(x is not y for x,y in zip(a.pc[:npc],b.pc[:npc])): return None
        ca=z3.And(*a.pc[npc:]) if len(a.pc)>npc+1 else (a.pc[npc] if len(a.pc)>npc else z3.BoolVal(True))
        cb=z3.And(*b.pc[npc:]) if len(b.pc)>npc+1 else (b.pc[npc] if len(b.pc)>npc else z3.BoolVal(True))
        fa=a.frames[-1]; fb=b.frames[-1]
        for x,y in zip(a.frames[:-1],b.frames[:-1]):
            if x.fn is not y.fn or x.block!=y.block or x.idx!=y.idx: return None
        live=fa.fn.loops[J]
        newregs={}
        for r in live:
            va,vb=fa.regs[r],fb.regs[r]
            if va is vb: continue
            m=self.mval(ca,va,vb,fa.fn.rw[r])
            if m is NOPE: return None
            newregs[r]=m
        changes=[]
        for i in set(a.mem)|set(b.mem):
            oa=a.mem.get(i); ob=b.mem.get(i)
            if oa is ob: continue
            if oa is None: oa=self.base.get(i)
            if ob is None: ob=self.base.get(i)
            if oa is None:
                changes.append((i,None,ob)); continue
            if ob is None: continue
            if not oa.alive and not ob.alive: continue
            if oa.alive!=ob.alive or oa.kind!=ob.kind: return None
            if oa.kind=='region': return None
            if oa.zero!=ob.zero: return None
            diff={}
            for off in set(oa.cells)|set(ob.cells):
                x=oa.cells.get(off); y=ob.cells.get(off)
                if x is y: continue
                if x is None or y is None:
                    # uninitialised or zero on one side
                    z=x or y
                    other=ob if y is None else oa
                    if self.cell_at(other,off) is not None: return None
                    if z[2]=='p': 
                        if other.zero: return None
                        diff[off]=None; continue
                    if z[2]!='i': 
                        diff[off]=None; continue
                    o=0 if other.zero else self.freshbv('undef',8*z[0])
                    vx,vy=(z[1],o) if y is None else (o,z[1])
                    m=self.mval(ca,vx,vy,8*z[0])
                    if m is NOPE: return None
                    diff[off]=(z[0],m,'i'); continue
                if x[0]!=y[0]: return None
                if x[1] is y[1] or (isint(x[1]) and isint(y[1]) and x[1]==y[1]): continue
                if x[2]=='f' or y[2]=='f':
                    if x[2]!=y[2]: return None
                    diff[off]=(x[0],z3.If(ca,fpv(x[1],x[0]*8),fpv(y[1],x[0]*8)),'f'); continue
                m=self.mval(ca,x[1],y[1],8*x[0])
                if m is NOPE: return None
                diff[off]=(x[0],m,'p' if isinstance(m,Ptr) else x[2])
            changes.append((i,diff,None))
        # commit into a
        for r,v in newregs.items(): fa.regs[r]=v
        for i,diff,ob in changes:
            if diff is None: a.mem[i]=ob; continue
            w=self.wobj(a,i)
            for off,c in diff.items():
                if c is None: w.cells.pop(off,None)
                else: w.cells[off]=c
        fa.allocas=list(dict.fromkeys(fa.allocas+fb.allocas))
        a.exct.update(b.exct)
        a.pc=a.pc[:npc]
        c=simp(z3.Or(ca,cb))
        dec=a.decided; a.decided={k:v for k,v in dec.items() if k in b.decided and b.decided[k][0]==v[0]}
        if not z3.is_true(c): self.add(a,c,a.model)
        for k,v in b.ghost.items():
            if k not in a.ghost: a.ghost[k]=v
        return a
    def mval(self,c,x,y,w=None):
        if x is y: return x
        if x is None or y is None: return NOPE
        if isint(x) and isint(y) and x==y: return x
        if isinstance(x,Ptr) and isinstance(y,Ptr):
            if x.o==y.o and isint(x.off) and isint(y.off) and x.off==y.off: return x
            return NOPE
        if isinstance(x,Ptr) or isinstance(y,Ptr): return NOPE
        if isinstance(x,list) or isinstance(y,list):
            if isinstance(x,list) and isinstance(y,list) and len(x)==len(y):
                r=[self.mval(c,p,q) for p,q in zip(x,y)]
                return NOPE if any(q is NOPE for q in r) else r
            return NOPE
        if isinstance(x,float) or isinstance(y,float) or z3.is_fp(x) or z3.is_fp(y):
            if isinstance(x,float) and isinstance(y,float) and x==y: return x
            return NOPE if (isinstance(x,float) and isinstance(y,float)) else z3.If(c,fpv(x),fpv(y))
        if z3.is_bool(x) or z3.is_bool(y): return nsimp(z3.If(c,boolz(x),boolz(y)))
        if isint(x) and isint(y):
            if w is None: return NOPE
            if w==1: return c if x else znot(c)
            return z3.If(c,z3.BitVecVal(x,w),z3.BitVecVal(y,w))
        ww=x.size() if not isint(x) else y.size()
        if not isint(x) and not isint(y) and x.size()!=y.size(): return NOPE
        return z3.If(c,bv(x,ww),bv(y,ww))
    # ---------------------------------------------------------------- instructions
    def execi(self,st,f,ins):
        op=ins.op
        if op=='br':
            a=ins.a
            if a[0] is None: t=a[1]
            else: t=a[1] if self.choose(st,self.val(st,a[0])) else a[2]
            if t<=f.block: self.count_loop(st,f,t)
            self.goto(st,t)
            return [st]
        if op in('call','invoke'): return self.call(st,f,ins)
        if op=='load':
            p=self.val(st,ins.a[0])
            if not isinstance(p,Ptr): p=self.as_ptr(p)
            f.regs[ins.dst]=self.load(st,p,ins.ty); f.idx+=1; return None
        if op=='store':
            p=self.val(st,ins.a[1])
            if not isinstance(p,Ptr): p=self.as_ptr(p)
            self.store(st,p,self.val(st,ins.a[0]),ins.a[2]); f.idx+=1; return None
        if op=='gep':
            vs=[self.val(st,o) for o in ins.a[1]]
            f.regs[ins.dst]=self.gep(st,ins.a[0],vs[0],vs[1:],ins.a[2][1:]); f.idx+=1; return None
        if op=='alloca':
            t=ins.a[0]; n=self.val(st,ins.a[1]); n=self.concretize(st,n)
            if 'regions' in st.ghost and t.size*n>=1024 and t.size*n%8==0 and words(t): p=self.region(st,t.size*n,'local %s of %s'%(ins.name,f.fn.dem[:80]))
            else: p=self.alloc(st,t.size*n,'local %s of %s'%(ins.name,f.fn.dem[:80]),kind='stack')
            f.allocas.append(p.o)
            f.regs[ins.dst]=p; f.idx+=1; return None
        if op=='icmp':
            f.regs[ins.dst]=self.icmp(st,ins.a[0],self.val(st,ins.a[1]),self.val(st,ins.a[2]),ins.a[3]); f.idx+=1; return None
        if op in('add','sub','mul','and','or','xor','shl','lshr','ashr','udiv','urem','sdiv','srem'):
            a=self.val(st,ins.a[0]); b=self.val(st,ins.a[1]); w=ins.ty.w
            if op in('udiv','urem','sdiv','srem'):
                if isint(b):
                    if b==0: self.fail(st,'safe.division_by_zero','division by zero'); raise PathEnd('div0')
                else: self.prove(st,'safe.division_by_zero',b!=0,'division by zero','safety')
                if op[0]=='s' and not(isint(b) and b!=M(w)):
                    x,y=bv(a,w),bv(b,w)
                    self.prove(st,'safe.division_overflow',z3.Not(z3.And(x==(1<<(w-1)),y==M(w))),'signed division overflow','safety')
            r=self.arith(op,a,b,w)
            f.regs[ins.dst]=r; f.idx+=1; return None
        if op=='ret':
            v=self.val(st,ins.a[0]) if ins.a[0] is not None else None
            call=f.call
            self.ret(st,v)
            if call is not None and call.op=='invoke': return [st]
            if st.frames: st.frames[-1].idx+=1
            return None if not st.merge else [st]
        if op in('zext','sext','trunc','bitcast','ptrtoint','inttoptr','freeze','addrspacecast'):
            v=self.val(st,ins.a[0]); t=ins.a[1]; w=ins.ty.w
            f.regs[ins.dst]=self.cast(st,op,v,t,ins.ty); f.idx+=1; return None
        if op=='select':
            c=self.known(st,self.val(st,ins.a[0]))
            if isint(c): r=self.val(st,ins.a[1] if c else ins.a[2])
            else:
                x=self.val(st,ins.a[1]); y=self.val(st,ins.a[2])
                if x is y: r=x
                elif ins.ty.k=='i' and not isinstance(x,Ptr) and not isinstance(y,Ptr):
                    r=nsimp(z3.If(c,boolz(x),boolz(y))) if ins.ty.w==1 else (x if isint(x) and isint(y) and x==y else z3.If(c,bv(x,ins.ty.w),bv(y,ins.ty.w)))
                elif ins.ty.k=='f': r=z3.If(c,fpv(x,ins.ty.w),fpv(y,ins.ty.w))
                else: r=x if self.choose(st,c) else y
            f.regs[ins.dst]=r; f.idx+=1; return None
        if op=='switch':
            v=self.val(st,ins.a[0])
            if isint(v):
                t=ins.a[2]
                for k,b in ins.a[3]:
                    if k==v: t=b; break
            else:
                t=ins.a[2]
                bydest={}
                for k,b in ins.a[3]: bydest.setdefault(b,[]).append(k)
                for b,ks in bydest.items():
                    if self.choose(st,z3.Or(*[v==k for k in ks]) if len(ks)>1 else v==ks[0]): t=b; break
            if t<=f.block: self.count_loop(st,f,t)
            self.goto(st,t); return [st]
        if op=='extractvalue':
            v=self.val(st,ins.a[0])
            for i in ins.a[1]: v=v[i]
            f.regs[ins.dst]=v; f.idx+=1; return None
        if op=='insertvalue':
            v=self.val(st,ins.a[0]); x=self.val(st,ins.a[2])
            def rec(v,ix):
                v=list(v); v[ix[0]]=x if len(ix)==1 else rec(v[ix[0]],ix[1:]); return v
            f.regs[ins.dst]=rec(v,ins.a[1]); f.idx+=1; return None
        if op in('fadd','fsub','fmul','fdiv','frem','fneg','fcmp','sitofp','uitofp','fptosi','fptoui','fpext','fptrunc'):
            f.regs[ins.dst]=self.fop(st,ins); f.idx+=1; return None
        if op=='resume':
            v=self.val(st,ins.a[0]); exc=v[0]
            ti=st.exct[exc.o]
            fr=st.frames.pop()
            for i in fr.allocas:
                o=self.wobj(st,i); o.alive=False; o.cells={}
            if fr.tag: self.B.on_unwind(self,st,fr)
            self.rethrow_from(st,exc,ti,fr.call); return [st]
        if op=='unreachable':
            self.fail(st,'safe.unreachable','undefined behaviour: unreachable code reached'); raise PathEnd('unreachable')
        if op=='fence': f.idx+=1; return None
        if op=='atomicrmw':
            k,po,vo,t=ins.a; p=self.val(st,po); v=self.val(st,vo); old=self.load(st,p,t)
            new=v if k=='xchg' else self.arith(k,old,v,t.w)
            self.store(st,p,new,t); f.regs[ins.dst]=old; f.idx+=1; return None
        if op=='cmpxchg':
            p=self.val(st,ins.a[0]); c=self.val(st,ins.a[1]); n=self.val(st,ins.a[2]); t=ins.a[3]
            old=self.load(st,p,t); eq=self.icmp(st,'eq',old,c,t)
            if self.choose(st,eq): self.store(st,p,n,t); f.regs[ins.dst]=[old,1]
            else: f.regs[ins.dst]=[old,0]
            f.idx+=1; return None
        raise Unsupported('instruction '+op)
    def as_ptr(self,v):
        if isint(v): return NULL if v==0 else self.int2ptr(v)
        return Ptr(-2,v)
    def count_loop(self,st,f,t):
        key=(len(st.frames),id(f.fn),t)
        n=st.loopcnt.get(key,0)+1; st.loopcnt[key]=n
        if n>self.unroll: raise Unsupported('loop in %s exceeds the unrolling limit %d'%(f.fn.dem[:140],self.unroll))
    def rethrow_from(self,st,exc,ti,call):
        """continue unwinding in the caller (frame already popped)"""
        pend=call
        while st.frames:
            f=st.frames[-1]
            if pend is not None and pend.op=='invoke':
                # emulate: position is at the invoke
                blk=f.fn.blocks[f.block]; f.idx=len(blk)-1
                self.throw(st,exc,ti); return
            st.frames.pop()
            for i in f.allocas:
                o=self.wobj(st,i); o.alive=False; o.cells={}
            if f.tag: self.B.on_unwind(self,st,f)
            pend=f.call
        self.uncaught(st,ti)
    def cast(self,st,op,v,t,to):
        if op in('freeze','addrspacecast'): return v
        if op=='ptrtoint':
            if isinstance(v,Ptr) and v.o in(0,-2): v=v.off
            if to.w!=64 and not isinstance(v,Ptr): return v&M(to.w) if isint(v) else z3.Extract(to.w-1,0,v)
            if to.w!=64: v=self.ptr2int(v); return v&M(to.w) if isint(v) else z3.Extract(to.w-1,0,v)
            return v
        if op=='inttoptr':
            return v if isinstance(v,Ptr) else self.as_ptr(v)
        if isinstance(v,Ptr):
            if op=='bitcast': return v
            v=self.ptr2int(v)
        if op=='zext':
            if isint(v): return int(v)
            if t.w==1: return z3.If(v,z3.BitVecVal(1,to.w),z3.BitVecVal(0,to.w))
            return z3.ZeroExt(to.w-t.w,v)
        if op=='sext':
            if isint(v): return sgn(v,t.w)&M(to.w)
            if t.w==1: return z3.If(v,z3.BitVecVal(M(to.w),to.w),z3.BitVecVal(0,to.w))
            return z3.SignExt(to.w-t.w,v)
        if op=='trunc':
            if isint(v): return v&M(to.w)
            if to.w==1: return normb(simp(z3.Extract(0,0,v)==1))
            k=v.decl().kind()
            if k in(z3.Z3_OP_ZERO_EXT,z3.Z3_OP_SIGN_EXT) and v.arg(0).size()>=to.w:
                return v.arg(0) if v.arg(0).size()==to.w else self.cast(st,'trunc',v.arg(0),t,to)
            if k==z3.Z3_OP_BLSHR and z3.is_bv_value(v.arg(1)) and v.arg(1).as_long()+to.w<=v.size():
                n=v.arg(1).as_long(); e=z3.Extract(n+to.w-1,n,v.arg(0)); return e if hard(v) else norm(simp(e),to.w)
            e=z3.Extract(to.w-1,0,v)
            if hard(v): return e
            return norm(simp(e),to.w)
        if op=='bitcast':
            if t.k==to.k: return v
            if to.k=='f': return self.conv(v,'i',to)
            if to.k=='i': return self.conv(v,'f',to)
        raise Unsupported('cast '+op)
    def fop(self,st,ins):
        op=ins.op
        import math
        if 'floats' in st.ghost:      # after vc_any_floats(): nothing is assumed about floating-point results
            vs=[self.val(st,o) for o in (ins.a[1:3] if op=='fcmp' else ins.a[:-1])]
            if not all(isint(v) or isinstance(v,float) for v in vs):
                self.trusted.add('floating-point results (progress displays) are treated as arbitrary; conversions to integers are not range-checked there')
                if op=='fcmp': return self.freshbv('float',1)==1
                if op in('fptosi','fptoui'): return self.freshbv('float',ins.ty.w)
                return z3.fpBVToFP(self.freshbv('float',ins.ty.w),F64 if ins.ty.w==64 else z3.Float32())
        if op=='fcmp': return self.fcmp(ins.a[0],self.val(st,ins.a[1]),self.val(st,ins.a[2]),ins.a[3].w)
        vs=[self.val(st,o) for o in ins.a[:-1]]; t=ins.a[-1]
        w=ins.ty.w
        if op in('sitofp','uitofp'):
            v=vs[0]
            if isint(v):
                x=float(sgn(v,t.w) if op=='sitofp' else v)
                return x if w==64 else struct.unpack('<f',struct.pack('<f',x))[0]
            s=F64 if w==64 else z3.Float32()
            if t.w==1: v=z3.If(v,z3.BitVecVal(1,8),z3.BitVecVal(0,8))
            return z3.fpSignedToFP(RNE,v,s) if op=='sitofp' else z3.fpUnsignedToFP(RNE,v,s)
        if op in('fptosi','fptoui'):
            v=vs[0]
            if isinstance(v,float):
                if v!=v or abs(v)>=2.0**63*(2 if op=='fptoui' else 1):
                    return self.freshbv('fpcast',w)
                return int(v)&M(w)
            if not st.notes or st.notes[-1]!='fp':
                lo,hi=(-(2.0**(w-1)),2.0**(w-1)) if op=='fptosi' else (-1.0,2.0**w)
                ok=z3.And(z3.fpLT(v,fpv(hi,t.w)),z3.fpGEQ(v,fpv(lo,t.w)) if op=='fptosi' else z3.fpGT(v,fpv(lo,t.w)))
                if self.opts.get('check_fpcast',True): self.prove(st,'safe.float_to_integer_range',ok,'float to integer conversion out of range','safety')
            return z3.fpToSBV(RTZ,v,z3.BitVecSort(w)) if op=='fptosi' else z3.fpToUBV(RTZ,v,z3.BitVecSort(w))
        if op=='fpext':
            return vs[0] if isinstance(vs[0],float) else z3.fpFPToFP(RNE,vs[0],F64)
        if op=='fptrunc':
            return struct.unpack('<f',struct.pack('<f',vs[0]))[0] if isinstance(vs[0],float) else z3.fpFPToFP(RNE,vs[0],z3.Float32())
        if op=='fneg': return -vs[0] if isinstance(vs[0],float) else z3.fpNeg(vs[0])
        a,b=vs
        if isinstance(a,float) and isinstance(b,float) and w==64:
            try:
                if op=='fadd': return a+b
                if op=='fsub': return a-b
                if op=='fmul': return a*b
                if op=='fdiv': return a/b
                if op=='frem': return math.fmod(a,b)
            except (ZeroDivisionError,OverflowError,ValueError): pass
        a,b=fpv(a,w),fpv(b,w)
        if op=='fadd': return z3.fpAdd(RNE,a,b)
        if op=='fsub': return z3.fpSub(RNE,a,b)
        if op=='fmul': return z3.fpMul(RNE,a,b)
        if op=='fdiv': return z3.fpDiv(RNE,a,b)
        raise Unsupported(op)
    # ---------------------------------------------------------------- calls
    def call(self,st,f,ins):
        callee=ins.a[0]
        if callee[0]=='fn': name=callee[1]
        else:
            p=self.val(st,callee)
            if not isinstance(p,Ptr) or p.o not in self.fobj_name:
                if isinstance(p,Ptr) and p.o in(0,-1,-2):
                    self.fail(st,'safe.null_dereference','call through a null or invalid function pointer'); raise PathEnd('null call')
                raise Unsupported('indirect call to non-function in '+f.fn.dem[:120])
            name=self.fobj_name[p.o]
        name=self.mod.alias.get(name,name)
        sb=st.ghost.get('stubs')
        if sb and name in sb:
            tgt,mode=sb[name]; depth=len(st.frames)
            # mode 0: every call not made by the contract itself; 1: calls made by the function itself (induction hypothesis);
            # 2: every call except those made directly by the harness
            use={0:f.fn.name!=tgt,1:f.fn.name==name,2:depth>1 and f.fn.name!=tgt}[mode]
            if use:
                self.stubbed.add(self.mod.dem.get(name,name))
                self.push(st,self.mod.fn(tgt),[self.val(st,a) for a in ins.a[1]],ins)
                return None
        h=self.B.lookup(self,name)
        args=None
        if h is not None:
            args=[self.val(st,a) for a in ins.a[1]]
            return h(self,st,ins,args,name)
        fn=self.mod.fn(name)
        if fn is None or fn.decl:
            raise Unsupported('external function without contract: '+self.mod.dem.get(name,name))
        args=[self.val(st,a) for a in ins.a[1]]
        self.push(st,fn,args,ins)
        return None

NOPE=object()
def NOPE2(self,c,x,y): return NOPE
def NULLINT(p):
    if p.o in(0,-2) : return p.off
    return p
