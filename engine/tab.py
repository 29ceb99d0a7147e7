"""Finite-domain tabulation on top of bv2int: a term that depends on a single variable with few possible values becomes
the table of its values, i.e. a linear form over 0/1 indicators of that variable.  Sums of such terms stay linear forms in
a canonical order, so two differently written sums with equal tables become the same integer term.  Exact."""
import z3, math
from . import bv2int
from .bv2int import T, Give, conjuncts
LIM=64
class Tab(T):
    def __init__(self):
        super().__init__(); self.dom={}; self.ind={}; self.vs={}; self.form={}; self.defs=[]; self.hasform=0; self.tcache={}; self.built={}; self.atoms={}; self.cw={}
    # ---- variables of a term: None = more than one (or not a bit-vector), otherwise frozenset of names
    def fv(self,e):
        k=e.get_id()
        if k in self.vs: return self.vs[k]
        stack=[e]
        while stack:
            x=stack[-1]; kk=x.get_id()
            if kk in self.vs: stack.pop(); continue
            ch=x.children()
            if not ch:
                if x.decl().kind()==z3.Z3_OP_UNINTERPRETED: self.vs[kk]=(x,) 
                else: self.vs[kk]=()
                self.keep.append(x); stack.pop(); continue
            todo=[c for c in ch if c.get_id() not in self.vs]
            if todo: stack.extend(todo); continue
            r=()
            for c in ch:
                v=self.vs[c.get_id()]
                if v is None or (r and v and not v[0].eq(r[0])): r=None; break
                if v: r=v
            self.vs[kk]=r; self.keep.append(x); stack.pop()
        return self.vs[k]
    def prepare(self,cs):
        """domains of small variables from the constraints that mention only that variable"""
        per={}; names={}
        for c in cs:
            for a,neg in conjuncts(c):
                v=self.fv(a)
                if v and z3.is_bv(v[0]):
                    nm=v[0].decl().name(); names[nm]=v[0]; per.setdefault(nm,[]).append((a,neg))
        for nm,v in names.items():
            d=self.bounds.get(nm,{}); w=v.size(); M=1<<w
            lo,hi=d.get('ul',0),d.get('uh',M-1)
            if hi-lo>=256:
                if 'sl' in d and 'sh' in d and d['sl']>=0 and d['sh']-d['sl']<256: lo,hi=max(lo,d['sl']),min(hi,d['sh'])
                else: continue
            vals=[]
            for k in range(lo,hi+1):
                ok=True
                for a,neg in per[nm]:
                    r=z3.simplify(z3.substitute(a,(v,z3.BitVecVal(k,w))))
                    if (z3.is_true(r) and neg) or (z3.is_false(r) and not neg): ok=False; break
                if ok: vals.append(k)
                if len(vals)>LIM: break
            if 0<len(vals)<=LIM: self.dom[nm]=vals
    def indicators(self,nm):
        if nm in self.ind: return self.ind[nm]
        b=[z3.Int('b!%s!%d'%(nm,k)) for k in self.dom[nm]]
        self.defs+= [z3.And(x>=0,x<=1) for x in b]+[z3.Sum(*b)==1] if len(b)>1 else [b[0]==1]
        self.ind[nm]=b; return b
    def var(self,e):
        nm=e.decl().name()
        if nm in self.dom and nm not in self.vars:
            i=z3.Int('i!'+nm); b=self.indicators(nm)
            self.defs.append(i==z3.Sum(*[k*x for k,x in zip(self.dom[nm],b)]))
            self.vars[nm]=(e.size(),(i,min(self.dom[nm]),max(self.dom[nm])))
        return super().var(e)
    # a form is (const, {variable: table}, {atom id: coefficient}); atoms are integer terms with bounds in self.atoms
    def rest(self,f,v):
        """the part of a form that does not depend on v, as multiple * atom (0 when empty)"""
        tb={w:t for w,t in f[1].items() if w!=v and any(x!=t[0] for x in t)}
        c=sum(t[0] for w,t in f[1].items() if w!=v and not any(x!=t[0] for x in t))
        nt={}; 
        for w,t in tb.items(): m=min(t); c+=m; nt[w]=tuple(x-m for x in t)
        at={a:n for a,n in f[2].items() if n}
        g=0
        for t in nt.values():
            for x in t: g=math.gcd(g,x)
        for n in at.values(): g=math.gcd(g,n)
        if g==0: return c,0,None
        if at and at[min(at)]<0 and not nt: g=-g
        r=self.build((0,{w:tuple(x//g for x in t) for w,t in nt.items()},{a:n//g for a,n in at.items()}))
        return c,g,self.atom(r)
    def gate(self,at,v,t):
        """product of an atom with a table of v, as (multiple, atom)"""
        g=0
        for x in t: g=math.gcd(g,x)
        return g,self.gated(at,v,tuple(x//g for x in t))
    def gated(self,at,v,t):
        """the product of an atom with a table of v, as an atom"""
        key=('g',at,v,t); r=self.built.get(key)
        if r is None:
            I,lo,hi=self.atoms[at]; c=[x*y for x in(min(t),max(t)) for y in(lo,hi)]
            g=self.fresh('g'); self.side.append(z3.And(g>=min(c),g<=max(c)))
            for k,b in zip(t,self.indicators(v)): self.defs.append(z3.Implies(b==1,g==k*I))
            r=self.atom((g,min(c),max(c))); self.built[key]=r
        return r
    def atom(self,r):
        k=r[0].get_id()
        if k not in self.atoms: self.atoms[k]=r; self.keep.append(r[0])
        return k
    def build(self,f):
        """form -> (I,lo,hi), one integer term per form"""
        c,tb,at=f
        # normal form: every table has minimum 0
        tb2={}
        for v,t in tb.items():
            m=min(t); c+=m
            if max(t)!=m: tb2[v]=tuple(x-m for x in t)
        at={a:n for a,n in at.items() if n}
        key=(c,tuple(sorted(tb2.items())),tuple(sorted(at.items())))
        r=self.built.get(key)
        if r is None:
            I=None; lo=hi=c
            if tb2:
                k0=(0,key[1]); base=self.built.get(k0)
                if base is None:
                    h=sum(max(t) for t in tb2.values())
                    s=self.fresh('s'); self.side.append(z3.And(s>=0,s<=h))
                    self.defs.append(s==z3.Sum(*[n*x for v,t in key[1] for n,x in zip(t,self.indicators(v)) if n]))
                    base=(s,0,h); self.built[k0]=base
                I=base[0]; hi+=base[2]
            for a,n in key[2]:
                J,l,h=self.atoms[a]; l,h=min(n*l,n*h),max(n*l,n*h)
                J=J if n==1 else n*J; I=J if I is None else I+J; lo+=l; hi+=h
            I=z3.IntVal(c) if I is None else I+c if c else I
            r=(I,lo,hi)
            self.built[key]=r; self.keep.append(r[0])
            k=I.get_id()
            if k not in self.form: self.form[k]=(c,tb2,at)
        return r
    def formof(self,r):
        I=r[0]
        if isinstance(I,int): return (I,{},{})
        if z3.is_int_value(I): return (I.as_long(),{},{})
        f=self.form.get(I.get_id())
        if f is None: f=(0,{},{self.atom(r):1})
        return f
    def table(self,e,v):
        """value of e for every value of its only variable v"""
        k=(e.get_id(),v.get_id()); r=self.tcache.get(k)
        if r is not None: return r
        r=self.table_(e,v); self.tcache[k]=r; self.keep.append(e); return r
    def table_(self,e,v):
        D=self.dom[v.decl().name()]; n=len(D)
        if z3.is_bv_value(e): return [e.as_long()]*n
        if z3.is_true(e): return [True]*n
        if z3.is_false(e): return [False]*n
        if e.eq(v): return list(D)
        k=e.decl().kind(); ch=[self.table(c,v) for c in e.children()]
        if z3.is_bv(e):
            w=e.size(); m=(1<<w)-1
            def fold(f):
                r=ch[0]
                for c in ch[1:]: r=[f(x,y)&m for x,y in zip(r,c)]
                return r
            if k==z3.Z3_OP_BADD: return fold(lambda x,y:x+y)
            if k==z3.Z3_OP_BMUL: return fold(lambda x,y:x*y)
            if k==z3.Z3_OP_BSUB: return fold(lambda x,y:x-y)
            if k==z3.Z3_OP_BAND: return fold(lambda x,y:x&y)
            if k==z3.Z3_OP_BOR: return fold(lambda x,y:x|y)
            if k==z3.Z3_OP_BXOR: return fold(lambda x,y:x^y)
            if k==z3.Z3_OP_BNEG: return [-x&m for x in ch[0]]
            if k==z3.Z3_OP_BNOT: return [~x&m for x in ch[0]]
            if k==z3.Z3_OP_ITE: return [x if c else y for c,x,y in zip(*ch)]
            if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I): return [x//y if y else m for x,y in zip(*ch)]
            if k in(z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I): return [x%y if y else x for x,y in zip(*ch)]
            if k==z3.Z3_OP_BSHL: return [(x<<y)&m if y<w else 0 for x,y in zip(*ch)]
            if k==z3.Z3_OP_BLSHR: return [x>>y if y<w else 0 for x,y in zip(*ch)]
            if k==z3.Z3_OP_EXTRACT:
                h,l=e.params(); return [(x>>l)&m for x in ch[0]]
            if k==z3.Z3_OP_ZERO_EXT: return ch[0]
            if k==z3.Z3_OP_SIGN_EXT:
                s=e.arg(0).size(); return [(x-(1<<s) if x>>(s-1) else x)&m for x in ch[0]]
            if k==z3.Z3_OP_CONCAT:
                r=[0]*n
                for c,t in zip(e.children(),ch):
                    s=c.size(); r=[x<<s|y for x,y in zip(r,t)]
                return r
        else:
            if k==z3.Z3_OP_AND: return [all(x) for x in zip(*ch)]
            if k==z3.Z3_OP_OR: return [any(x) for x in zip(*ch)]
            if k==z3.Z3_OP_NOT: return [not x for x in ch[0]]
            if k==z3.Z3_OP_EQ: return [x==y for x,y in zip(*ch)]
            if k==z3.Z3_OP_ITE: return [x if c else y for c,x,y in zip(*ch)]
            if k==z3.Z3_OP_ULEQ: return [x<=y for x,y in zip(*ch)]
            if k==z3.Z3_OP_ULT: return [x<y for x,y in zip(*ch)]
            if k==z3.Z3_OP_UGEQ: return [x>=y for x,y in zip(*ch)]
            if k==z3.Z3_OP_UGT: return [x>y for x,y in zip(*ch)]
            if k in(z3.Z3_OP_SLEQ,z3.Z3_OP_SLT,z3.Z3_OP_SGEQ,z3.Z3_OP_SGT):
                s=e.arg(0).size(); sg=lambda x: x-(1<<s) if x>>(s-1) else x
                f={z3.Z3_OP_SLEQ:lambda x,y:x<=y,z3.Z3_OP_SLT:lambda x,y:x<y,z3.Z3_OP_SGEQ:lambda x,y:x>=y,z3.Z3_OP_SGT:lambda x,y:x>y}[k]
                return [f(sg(x),sg(y)) for x,y in zip(*ch)]
        t=[]
        for x in D:
            r=z3.simplify(z3.substitute(e,(v,z3.BitVecVal(x,v.size()))))
            if z3.is_bv_value(r): t.append(r.as_long())
            elif z3.is_true(r) or z3.is_false(r): t.append(z3.is_true(r))
            else: raise Give('table')
        return t
    def single(self,e):
        v=self.fv(e)
        if v and z3.is_bv(v[0]) and v[0].decl().name() in self.dom: return v[0]
        return None
    def term(self,e):
        k=e.get_id()
        if k in self.cache: return self.cache[k]
        v=self.single(e)
        if v is not None:
            nm=v.decl().name(); w=e.size(); M=1<<w
            t=self.table(e,v)
            c=[x-M if x>=M//2 else x for x in t]
            if max(map(abs,c))<max(t): t=c
            self.indicators(nm); self.var(v)
            r=self.build((0,{nm:tuple(t)},{})); self.cache[k]=r; self.keep.append(e); self.hasform+=1
            return r
        return super().term(e)
    def term_(self,e):
        k=e.decl().kind(); ch=e.children()
        def lin(fs,cs):
            c=0; tb={}; at={}
            for f,m in zip(fs,cs):
                c+=m*f[0]
                for v,t in f[1].items():
                    o=tb.get(v); tb[v]=tuple(m*x+(o[j] if o else 0) for j,x in enumerate(t))
                for a,n in f[2].items(): at[a]=at.get(a,0)+m*n
            return self.build((c,tb,at))
        if k in(z3.Z3_OP_BADD,z3.Z3_OP_BSUB,z3.Z3_OP_BNEG):
            fs=[self.formof(self.term(c)) for c in ch]
            return lin(fs,[1]*len(fs) if k==z3.Z3_OP_BADD else [-1] if k==z3.Z3_OP_BNEG else [1]+[-1]*(len(fs)-1))
        if k==z3.Z3_OP_BNOT: return lin([self.formof(self.term(ch[0])),(1,{},{})],[-1,-1])
        if k==z3.Z3_OP_BMUL and len(ch)==2:
            fs=[self.formof(self.term(c)) for c in ch]
            for x,y in(fs,fs[::-1]):
                if not x[1] and not x[2]: return lin([y],[x[0]])
            for x,y in(fs,fs[::-1]):
                if len(x[1])==1 and not x[2]:
                    # table of one variable times a form
                    (v,t),=x[1].items(); t=tuple(n+x[0] for n in t)
                    c,g,R=self.rest(y,v); tv=[(y[0]+c+m)*n for n,m in zip(t,y[1].get(v,(0,)*len(t)))]; at={}
                    if R is not None and any(t): n,G=self.gate(R,v,t); at[G]=n*g
                    return self.build((0,{v:tuple(tv)},at))
        if k==z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long()<e.size():
            return lin([self.formof(self.term(ch[0]))],[1<<ch[1].as_long()])
        if k==z3.Z3_OP_ITE:
            x=self.single(ch[0])
            if x is not None:
                v=x.decl().name(); self.indicators(v); self.var(x)
                bits=self.table(ch[0],x); A,B=self.formof(self.term(ch[1])),self.formof(self.term(ch[2])); n=len(bits)
                ta=A[1].get(v,(0,)*n); tb_=B[1].get(v,(0,)*n)
                p,ga,Ra=self.rest(A,v); q,gb,Rb=self.rest(B,v)
                tv=tuple(A[0]+p+x_ if b else B[0]+q+y_ for b,x_,y_ in zip(bits,ta,tb_)); at={}
                if Ra is not None and Ra==Rb:
                    if ga==gb: at[Ra]=ga
                    else: m,G=self.gate(Ra,v,tuple(ga if b else gb for b in bits)); at[G]=m
                else:
                    for R,g,w in((Ra,ga,True),(Rb,gb,False)):
                        if R is not None:
                            if any(b==w for b in bits): m,G=self.gate(R,v,tuple(int(b==w) for b in bits)); at[G]=at.get(G,0)+m*g
                return self.build((0,{v:tv},at))
        if k==z3.Z3_OP_CONCAT:
            c2=ch
            while len(c2)>1 and z3.is_bv_value(c2[0]) and c2[0].as_long()==0: c2=c2[1:]
            if len(c2)==1 and len(ch)>1: return self.U(c2[0])
        if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I):
            a=self.U(ch[0]); d=self.U(ch[1])
            if z3.is_int_value(d[0]) and d[0].as_long()>0: return self.divc(a,d[0].as_long())[0 if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) else 1]
        if k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I,z3.Z3_OP_BSREM,z3.Z3_OP_BSREM_I):
            a=self.S(ch[0]); d=self.S(ch[1])
            if z3.is_int_value(d[0]) and d[0].as_long()>0 and a[1]>=0: return self.divc(a,d[0].as_long())[0 if k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I) else 1]
        return super().term_(e)
    def canon(self,e,signed):
        c=self.canon_s if signed else self.canon_u
        if e.get_id() in c: return c[e.get_id()]
        I=self.term(e)[0]; k=(I.get_id(),e.size(),signed)
        if k in self.cw: r=c[e.get_id()]=self.cw[k]; self.keep.append(e); return r
        r=super().canon(e,signed); self.cw[k]=r; return r
    def divc(self,a,d):
        key=('d',a[0].get_id(),d)
        if key not in self.bc:
            q=self.fresh('q'); r=self.fresh('r')
            self.side+=[a[0]==q*d+r,r>=0,r<d,q>=a[1]//d,q<=a[2]//d]
            self.bc[key]=((q,a[1]//d,a[2]//d),(r,0,min(a[2],d-1))); self.keep.append(a[0])
        return self.bc[key]
    def boolean(self,e):
        key=('b',e.get_id())
        if key in self.cache: return self.cache[key]
        v=self.single(e)
        if v is None: return super().boolean(e)
        nm=v.decl().name(); b=self.indicators(nm); self.var(v)
        tr=[i for x,i in zip(self.table(e,v),b) if x]
        r=z3.BoolVal(False) if not tr else z3.BoolVal(True) if len(tr)==len(b) else z3.Sum(*tr)>=1
        self.cache[key]=r; self.keep.append(e); return r
def translate(cs):
    """-> (constraints without the definitions of sums, definitions, vars) or None when nothing is tabulated"""
    t=Tab(); t.scan(cs); t.marks(cs)
    try:
        t.prepare(cs)
        if not t.dom: return None
        out=[t.boolean(c) for c in cs]
    except Give: return None
    if not t.hasform: return None
    return out+t.side,t.defs,{n:(w,r[0].decl().name()) for n,(w,r) in t.vars.items()}
