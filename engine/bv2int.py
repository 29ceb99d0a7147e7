"""Exact translation of quantifier-free bit-vector formulas to integer arithmetic, with interval analysis so that
modular reductions appear only where a value can really leave its range.  Every bit-vector term t of width w becomes an
integer term I with I = t (mod 2^w) and known bounds; the translation is equisatisfiable."""
import z3
def sext_of(e):
    """x when e is the sign extension of x written as a concatenation of copies of its top bit"""
    if e.decl().kind()!=z3.Z3_OP_CONCAT: return None
    ch=e.children(); x=ch[-1]; n=x.size()
    for c in ch[:-1]:
        if c.decl().kind()!=z3.Z3_OP_EXTRACT: return None
        h,l=c.params()
        if h!=n-1 or l!=n-1 or not c.arg(0).eq(x): return None
    return x
class Give(Exception): pass
class T:
    def __init__(self):
        self.cache={}; self.side=[]; self.n=0; self.vars={}; self.bc={}; self.canon_u={}; self.canon_s={}; self.bounds={}; self.keep=[]; self.ib={}; self.signed=set()
    def fresh(self,p='k'):
        self.n+=1; return z3.Int(f'{p}!!{self.n}')
    def scan(self,cs):
        """bounds of variables from top-level constraints"""
        def visit(c):
            k=c.decl().kind()
            if k==z3.Z3_OP_AND:
                for x in c.children(): visit(x)
                return
            neg=False
            if k==z3.Z3_OP_NOT: neg=True; c=c.arg(0); k=c.decl().kind()
            if neg and k==z3.Z3_OP_OR:
                for x in c.children(): visit(z3.Not(x))
                return
            if k not in(z3.Z3_OP_ULEQ,z3.Z3_OP_ULT,z3.Z3_OP_UGEQ,z3.Z3_OP_UGT,z3.Z3_OP_SLEQ,z3.Z3_OP_SLT,z3.Z3_OP_SGEQ,z3.Z3_OP_SGT): return
            a,b=c.arg(0),c.arg(1)
            U=k in(z3.Z3_OP_ULEQ,z3.Z3_OP_ULT,z3.Z3_OP_UGEQ,z3.Z3_OP_UGT)
            rel={z3.Z3_OP_ULEQ:'<=',z3.Z3_OP_ULT:'<',z3.Z3_OP_UGEQ:'>=',z3.Z3_OP_UGT:'>',z3.Z3_OP_SLEQ:'<=',z3.Z3_OP_SLT:'<',z3.Z3_OP_SGEQ:'>=',z3.Z3_OP_SGT:'>'}[k]
            if neg: rel={'<=':'>','<':'>=','>=':'<','>':'<='}[rel]
            if z3.is_bv_value(a): a,b=b,a; rel={'<=':'>=','<':'>','>=':'<=','>':'<'}[rel]
            if not z3.is_bv_value(b) or not(z3.is_const(a) and a.decl().kind()==z3.Z3_OP_UNINTERPRETED): return
            v=b.as_long() if U else b.as_signed_long()
            d=self.bounds.setdefault(a.decl().name(),{})
            K='u' if U else 's'
            if rel in('<=','<'):
                h=v if rel=='<=' else v-1; d[K+'h']=min(d.get(K+'h',h),h)
            else:
                l=v if rel=='>=' else v+1; d[K+'l']=max(d.get(K+'l',l),l)
        for c in cs: visit(c)
    def marks(self,cs):
        """variables used as signed numbers only"""
        seen=set(); stack=list(cs); sg=set(); us=set()
        SG=(z3.Z3_OP_SLEQ,z3.Z3_OP_SLT,z3.Z3_OP_SGEQ,z3.Z3_OP_SGT,z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I,z3.Z3_OP_BSREM,z3.Z3_OP_BSREM_I,z3.Z3_OP_SIGN_EXT,z3.Z3_OP_BASHR)
        UG=(z3.Z3_OP_ULEQ,z3.Z3_OP_ULT,z3.Z3_OP_UGEQ,z3.Z3_OP_UGT,z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I,z3.Z3_OP_ZERO_EXT,z3.Z3_OP_BLSHR)
        while stack:
            e=stack.pop()
            if e.get_id() in seen: continue
            seen.add(e.get_id()); k=e.decl().kind(); ch=e.children()
            x=sext_of(e)
            if x is not None: ch=[x]; k=z3.Z3_OP_SIGN_EXT
            if k in SG or k in UG:
                for c in ch:
                    if z3.is_const(c) and c.decl().kind()==z3.Z3_OP_UNINTERPRETED: (sg if k in SG else us).add(c.decl().name())
            if k==z3.Z3_OP_CONCAT:
                for c in ch:
                    if z3.is_const(c) and c.decl().kind()==z3.Z3_OP_UNINTERPRETED: us.add(c.decl().name())
            stack.extend(ch)
        self.signed=sg-us
    def var(self,e):
        w=e.size(); nm=e.decl().name()
        if nm in self.vars: return self.vars[nm][1]
        i=z3.Int('i!'+nm); d=self.bounds.get(nm,{}); M=1<<w
        lo,hi=0,M-1
        if nm in self.signed: lo,hi=max(-M//2,d.get('sl',-M//2)),min(M//2-1,d.get('sh',M//2-1))
        elif 'sl' in d and 'sh' in d and not('uh' in d and d['uh']<M//2): lo,hi=max(-M//2,d['sl']),min(M//2-1,d['sh'])
        else:
            lo=max(0,d.get('ul',0)); hi=min(M-1,d.get('uh',M-1))
            if 'sl' in d and d['sl']>=0: hi=min(hi,M//2-1); lo=max(lo,d['sl'])
        self.side.append(z3.And(i>=lo,i<=hi)); r=(i,lo,hi); self.vars[nm]=(w,r); return r
    def U(self,e): return self.canon(e,False)
    def S(self,e): return self.canon(e,True)
    def canon(self,e,signed):
        w=e.size(); c=self.canon_s if signed else self.canon_u
        k=e.get_id()
        if k in c: return c[k]
        I,lo,hi=self.term(e); M=1<<w
        if I.get_id() in self.ib:
            l2,h2=self.ib[I.get_id()][:2]; lo=max(lo,l2); hi=min(hi,h2)
        a,b=(-(M//2),M//2-1) if signed else (0,M-1)
        if lo>=a and hi<=b: r=(I,lo,hi)
        else:
            u=self.fresh('u'); q=self.fresh('q')
            ql=(lo-b)//M; qh=(hi-a)//M+1
            self.side+= [I==u+M*q,u>=a,u<=b,q>=ql,q<=qh]; r=(u,a,b)
        c[k]=r; self.keep.append(e); return r
    def divpos(self,I,lo,hi,d,dlo,dhi):
        """floor quotient and remainder for d>0 given I>=0"""
        q=self.fresh('q'); r=self.fresh('r')
        return q,r
    def term(self,e):
        k=e.get_id()
        if k in self.cache: return self.cache[k]
        r=self.term_(e)
        if isinstance(r[0],int): r=(z3.IntVal(r[0]),r[1],r[2])
        w=e.size(); lim=1<<(3*w+64)
        self.cache[k]=r; self.keep.append(e)
        if abs(r[1])>lim or abs(r[2])>lim:
            r=self.canon(e,False); self.cache[k]=r
        return r
    def fold(self,f,xs):
        r=self.term(xs[0])
        for x in xs[1:]: r=f(r,self.term(x))
        return r
    def term_(self,e):
        if z3.is_bv_value(e):
            v=e.as_long(); w=e.size()
            if v>=1<<(w-1) and v>(1<<w)-(1<<min(w-1,33)): v-=1<<w
            return (v,v,v)
        k=e.decl().kind(); w=e.size(); M=1<<w
        if k==z3.Z3_OP_UNINTERPRETED:
            if e.num_args(): raise Give('function')
            return self.var(e)
        ch=e.children()
        if k==z3.Z3_OP_BADD: return self.fold(lambda a,b:(a[0]+b[0],a[1]+b[1],a[2]+b[2]),ch)
        if k==z3.Z3_OP_BSUB and len(ch)==2 and z3.is_bv_value(ch[0]) and ch[0].as_long()==0:
            a=self.term(ch[1]); return (-a[0],-a[2],-a[1])
        if k==z3.Z3_OP_BSUB: return self.fold(lambda a,b:(a[0]-b[0],a[1]-b[2],a[2]-b[1]),ch)
        if k==z3.Z3_OP_BNEG:
            a=self.term(ch[0]); return (-a[0],-a[2],-a[1])
        if k==z3.Z3_OP_BMUL:
            def f(a,b):
                c=[a[1]*b[1],a[1]*b[2],a[2]*b[1],a[2]*b[2]]; x,y=a[0],b[0]
                lo,hi=min(c),max(c); neg=False
                if not isinstance(x,int) and x.decl().kind()==z3.Z3_OP_UMINUS: x=x.arg(0); neg=not neg
                if not isinstance(y,int) and y.decl().kind()==z3.Z3_OP_UMINUS: y=y.arg(0); neg=not neg
                if not isinstance(x,int) and not isinstance(y,int) and not z3.is_int_value(x) and (z3.is_int_value(y) or x.get_id()>y.get_id()): x,y=y,x
                p=x*y
                if not isinstance(p,int):
                    self.keep.append(p)
                    t=self.ib.get(p.get_id())
                    if t is not None:
                        l2,h2=(t[0],t[1]) if not neg else (-t[1],-t[0])
                        lo,hi=max(lo,l2),min(hi,h2)
                return (-p if neg else p,lo,hi)
            return self.fold(f,ch)
        if k==z3.Z3_OP_BNOT:
            a=self.term(ch[0]); return (-a[0]-1,-a[2]-1,-a[1]-1)
        if k==z3.Z3_OP_ZERO_EXT: return self.U(ch[0])
        if k==z3.Z3_OP_SIGN_EXT: return self.S(ch[0])
        if k==z3.Z3_OP_ITE:
            c=self.boolean(ch[0])
            if z3.is_true(c) or z3.is_false(c): return self.term(ch[1] if z3.is_true(c) else ch[2])
            a=self.term(ch[1]); b=self.term(ch[2]); return (z3.If(c,a[0],b[0]),min(a[1],b[1]),max(a[2],b[2]))
        if k==z3.Z3_OP_CONCAT:
            x=sext_of(e)
            if x is not None: return self.S(x)
            I,lo,hi=0,0,0; first=True
            while len(ch)>1 and z3.is_bv_value(ch[0]) and ch[0].as_long()==0: ch=ch[1:]
            for x in ch:
                u=self.U(x); s=x.size()
                I=I*(1<<s)+u[0] if not(first) else u[0]; lo=lo*(1<<s)+u[1]; hi=hi*(1<<s)+u[2]; first=False
            return (I,lo,hi)
        if k==z3.Z3_OP_EXTRACT:
            h,l=e.params(); x=ch[0]
            if l==0: return self.term(x)
            u=self.U(x); D=1<<l; q=self.fresh('q'); r=self.fresh('r')
            self.side+=[u[0]==q*D+r,r>=0,r<D,q>=u[1]//D,q<=u[2]//D]
            return (q,u[1]//D,u[2]//D)
        if k in(z3.Z3_OP_BSHL,z3.Z3_OP_BLSHR,z3.Z3_OP_BASHR):
            if not z3.is_bv_value(ch[1]): raise Give('shift')
            s=ch[1].as_long()
            if k==z3.Z3_OP_BSHL:
                if s>=w: return (0,0,0)
                a=self.term(ch[0]); return (a[0]*(1<<s),a[1]<<s,a[2]<<s)
            a=self.U(ch[0]) if k==z3.Z3_OP_BLSHR else self.S(ch[0])
            if s>=w:
                if k==z3.Z3_OP_BLSHR: return (0,0,0)
                s=w-1
            D=1<<s; q=self.fresh('q'); r=self.fresh('r')
            self.side+=[a[0]==q*D+r,r>=0,r<D,q>=a[1]//D,q<=a[2]//D]
            return (q,a[1]//D,a[2]//D)
        if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I,z3.Z3_OP_BUREM,z3.Z3_OP_BUREM_I):
            key=('u',ch[0].get_id(),ch[1].get_id())
            if key not in self.bc:
                a=self.U(ch[0]); d=self.U(ch[1]); q=self.fresh('q'); r=self.fresh('r')
                if d[1]>0:
                    ql,qh=a[1]//d[2],a[2]//d[1]; rl,rh=0,min(a[2],d[2]-1)
                    self.side+=[a[0]==q*d[0]+r,r>=0,r<d[0],q>=ql,q<=qh]
                    if not z3.is_int_value(d[0]): self.side+=[r<=a[0],q<=a[0]]
                else:
                    ql,qh=0,M-1; rl,rh=0,a[2]
                    self.side+=[z3.If(d[0]>0,z3.And(a[0]==q*d[0]+r,r>=0,r<d[0],q<=a[0]),z3.And(q==M-1,r==a[0])),q>=0,q<=qh,r>=0]
                self.bc[key]=((q,ql,qh),(r,rl,rh)); self.keep+=ch
            return self.bc[key][0 if k in(z3.Z3_OP_BUDIV,z3.Z3_OP_BUDIV_I) else 1]
        if k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I,z3.Z3_OP_BSREM,z3.Z3_OP_BSREM_I):
            key=('s',ch[0].get_id(),ch[1].get_id())
            if key not in self.bc:
                a=self.S(ch[0]); d=self.S(ch[1]); q=self.fresh('q'); r=self.fresh('r')
                ma=max(abs(a[1]),abs(a[2])); md=max(abs(d[1]),abs(d[2]))
                pos=a[1]>=0 and d[1]>0
                if pos:
                    self.side+=[a[0]==q*d[0]+r,r>=0,r<d[0],q>=0,q<=a[0],r<=a[0]]
                    self.bc[key]=((q,0,ma),(r,0,min(ma,md-1)))
                else:
                    nz=d[1]>0 or d[2]<0
                    ad=d[0] if d[1]>0 else (-d[0] if d[2]<0 else z3.If(d[0]>=0,d[0],-d[0]))
                    reg=z3.And(a[0]==q*d[0]+r,z3.Implies(a[0]>=0,z3.And(r>=0,r<ad)),z3.Implies(a[0]<0,z3.And(r<=0,-r<ad)))
                    if not nz:
                        # division by zero: -1 for non-negative, 1 for negative dividends; remainder is the dividend
                        reg=z3.If(d[0]==0,z3.And(q==z3.If(a[0]>=0,-1,1),r==a[0]),reg)
                    self.side+=[reg,q>=-max(ma,1),q<=max(ma,1),r>=-ma,r<=ma]
                    self.bc[key]=((q,-max(ma,1),max(ma,1)),(r,-ma,ma))
                self.keep+=ch
            return self.bc[key][0 if k in(z3.Z3_OP_BSDIV,z3.Z3_OP_BSDIV_I) else 1]
        if k==z3.Z3_OP_BAND and len(ch)==2:
            for x,y in(ch,ch[::-1]):
                if z3.is_bv_value(y):
                    m=y.as_long()
                    if m&(m+1)==0:
                        a=self.U(x); D=m+1
                        if a[2]<=m: return a
                        q=self.fresh('q'); r=self.fresh('r'); self.side+=[a[0]==q*D+r,r>=0,r<D,q>=0,q<=a[2]//D]; return (r,0,m)
        if w==1:
            u=[self.boolean_of(c) for c in ch] if k in(z3.Z3_OP_BAND,z3.Z3_OP_BOR,z3.Z3_OP_BXOR) else None
            if u:
                f={z3.Z3_OP_BAND:z3.And,z3.Z3_OP_BOR:z3.Or}.get(k)
                b=f(*u) if f else z3.Xor(u[0],u[1])
                return (z3.If(b,z3.IntVal(1),z3.IntVal(0)),0,1)
        raise Give('operator %s'%e.decl())
    def boolean_of(self,e):
        u=self.U(e); return u[0]==1
    def boolean(self,e):
        key=('b',e.get_id())
        if key in self.cache: return self.cache[key]
        r=self.boolean_(e); self.cache[key]=r; self.keep.append(e); return r
    def boolean_(self,e):
        k=e.decl().kind(); ch=e.children()
        if k==z3.Z3_OP_TRUE or k==z3.Z3_OP_FALSE: return e
        if k==z3.Z3_OP_UNINTERPRETED and not ch: return e
        if k in(z3.Z3_OP_AND,z3.Z3_OP_OR): return (z3.And if k==z3.Z3_OP_AND else z3.Or)(*[self.boolean(c) for c in ch])
        if k==z3.Z3_OP_NOT: return z3.Not(self.boolean(ch[0]))
        if k==z3.Z3_OP_XOR: return z3.Xor(self.boolean(ch[0]),self.boolean(ch[1]))
        if k==z3.Z3_OP_IMPLIES: return z3.Implies(self.boolean(ch[0]),self.boolean(ch[1]))
        if k==z3.Z3_OP_ITE: return z3.If(*[self.boolean(c) for c in ch])
        if k in(z3.Z3_OP_EQ,z3.Z3_OP_DISTINCT):
            if len(ch)!=2: raise Give('distinct')
            if z3.is_bool(ch[0]): r=self.boolean(ch[0])==self.boolean(ch[1])
            elif z3.is_bv(ch[0]):
                a=self.term(ch[0]); b=self.term(ch[1]); M=1<<ch[0].size()
                if max(a[2]-b[1],b[2]-a[1])<M: r=a[0]==b[0]
                else: r=self.U(ch[0])[0]==self.U(ch[1])[0]
            else: raise Give('sort')
            return r if k==z3.Z3_OP_EQ else z3.Not(r)
        ops={z3.Z3_OP_ULEQ:(0,'<='),z3.Z3_OP_ULT:(0,'<'),z3.Z3_OP_UGEQ:(0,'>='),z3.Z3_OP_UGT:(0,'>'),z3.Z3_OP_SLEQ:(1,'<='),z3.Z3_OP_SLT:(1,'<'),z3.Z3_OP_SGEQ:(1,'>='),z3.Z3_OP_SGT:(1,'>')}
        if k in ops:
            s,o=ops[k]; f=self.S if s else self.U; a,b=f(ch[0]),f(ch[1])
            if o in('>','>='): a,b=b,a
            if o in('<','>'):
                if a[2]<b[1]: return z3.BoolVal(True)
                if a[1]>=b[2]: return z3.BoolVal(False)
                return a[0]<b[0]
            if a[2]<=b[1]: return z3.BoolVal(True)
            if a[1]>b[2]: return z3.BoolVal(False)
            return a[0]<=b[0]
        raise Give('predicate %s'%e.decl())
def conjuncts(c,neg=False):
    k=c.decl().kind()
    if k==z3.Z3_OP_NOT: yield from conjuncts(c.arg(0),not neg)
    elif k==(z3.Z3_OP_OR if neg else z3.Z3_OP_AND):
        for x in c.children(): yield from conjuncts(x,neg)
    else: yield c,neg
def refine(t,cs):
    """bounds that top-level constraints put on compound terms"""
    U={z3.Z3_OP_ULEQ:'<=',z3.Z3_OP_ULT:'<',z3.Z3_OP_UGEQ:'>=',z3.Z3_OP_UGT:'>'}; S={z3.Z3_OP_SLEQ:'<=',z3.Z3_OP_SLT:'<',z3.Z3_OP_SGEQ:'>=',z3.Z3_OP_SGT:'>'}
    for c in cs:
        for a,neg in conjuncts(c):
            k=a.decl().kind()
            if k not in U and k not in S: continue
            rel=(U if k in U else S)[k]
            if neg: rel={'<=':'>','<':'>=','>=':'<','>':'<='}[rel]
            x,y=a.children()
            if z3.is_bv_value(x): x,y=y,x; rel={'<=':'>=','<':'>','>=':'<=','>':'<'}[rel]
            if not z3.is_bv_value(y) or z3.is_bv_value(x) or x.decl().kind()==z3.Z3_OP_UNINTERPRETED: continue
            v=y.as_long() if k in U else y.as_signed_long()
            M=1<<x.size(); lo0,hi0=(0,M-1) if k in U else (-M//2,M//2-1)
            I,lo,hi=t.term(x)
            if lo<lo0 or hi>hi0: continue     # would need a reduction: no direct bound
            o=t.ib.get(I.get_id(),(lo,hi,I)); lo,hi=o[0],o[1]
            if rel in('<=','<'): hi=min(hi,v if rel=='<=' else v-1)
            else: lo=max(lo,v if rel=='>=' else v+1)
            if lo<=hi: t.ib[I.get_id()]=(lo,hi,I); t.side.append(z3.And(I>=lo,I<=hi))
def translate(cs):
    """list of z3 Bool (BV) -> (list of z3 Bool (Int), vars name->(width,int var name)) or None"""
    t=T(); t.scan(cs); t.marks(cs)
    try:
        refine(t,cs)
        out=[t.boolean(c) for c in cs]
    except Give: return None
    return out+t.side,{n:(w,r[0].decl().name()) for n,(w,r) in t.vars.items()}
