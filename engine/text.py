"""Assumed contract of formatted input and output on string streams (active after vc_text()): the text of a stream is a
sequence of bytes; inserting a character or string appends it, inserting an integer appends its text, and extracting an
integer of the same signedness where that text begins gives the integer back and consumes exactly the text.  The text of an
integer that is not known is an opaque block: '#', its signedness, and sixteen letters that carry its value."""
import re, z3
from .sym import Ptr, Unsupported, isint, bv, simp
from . import llvmir as L
I8=L.Ty(); I8.k='i'; I8.w=8; I8.size=1
I64=L.Ty(); I64.k='i'; I64.w=64; I64.size=8
P=L.Ty(); P.k='p'; P.w=64; P.size=8
WIDTH={'short':16,'unsigned short':16,'int':32,'unsigned int':32,'long':64,'unsigned long':64,'long long':64,'unsigned long long':64}
def number(v,w,signed):
    if isint(v):
        v&=(1<<w)-1
        if signed and v>>(w-1): v-=1<<w
        return tuple(str(v).encode())
    e=bv(v,w)
    if w<64: e=z3.SignExt(64-w,e) if signed else z3.ZeroExt(64-w,e)
    return (ord('#'),ord('s' if signed else 'u'))+tuple(simp(z3.Concat(z3.BitVecVal(0,4),z3.Extract(4*i+3,4*i,e))+z3.BitVecVal(ord('a'),8)) for i in range(16))
def string(ex,st,p):
    n=ex.load(st,ex.padd(p,8),I64)
    if not isint(n): raise Unsupported('text of symbolic length')
    d=ex.load(st,p,P)
    return tuple(ex.load(st,ex.padd(d,i),I8) for i in range(n))
def make(ex,st,p,b):
    buf=ex.padd(p,16) if len(b)<16 else ex.alloc(st,len(b)+1,'text of a stream')
    ex.store(st,p,buf,P); ex.store(st,ex.padd(p,8),len(b),I64)
    if len(b)>=16: ex.store(st,ex.padd(p,16),len(b),I64)
    for i,c in enumerate(b+(0,)): ex.store(st,ex.padd(buf,i),c,I8)
def blank(ex,st,c):
    if isint(c): return c in (9,10,11,12,13,32)
    return ex.choose(st,z3.Or(c==32,z3.And(z3.UGE(c,9),z3.ULE(c,13))))
def handle(ex,st,ins,a,d):
    """True and the result if this call is covered"""
    k=('text',a[0].o) if a and isinstance(a[0],Ptr) else None
    if 'stringstream' in d:
        if '::~basic_' in d: st.ghost.pop(k,None); return True,None
        if re.search(r'::basic_[io]?stringstream\(\)',d): st.ghost[k]=((),0); return True,None
        if re.search(r'::basic_[io]?stringstream\((?:std::__cxx11::basic_string<|std::string)',d): st.ghost[k]=(string(ex,st,a[1]),0); return True,None
        if '::str() const' in d:
            t=st.ghost.get(('text',a[1].o))
            if t is None: raise Unsupported('text of an unknown stream')
            make(ex,st,a[0],t[0]); return True,None
        return False,None
    t=st.ghost.get(k)
    if t is None: return False,None
    t,r=t
    m=re.search(r'(?:basic_ostream<.*>|ostream)::operator<<\(([a-z ]+)\)',d)
    if m and m[1] in WIDTH: st.ghost[k]=(t+number(a[1],WIDTH[m[1]],'unsigned' not in m[1]),r); return True,a[0]
    if re.search(r'std::operator<< ?<.*ostream.*&, (unsigned |signed )?char\)',d): st.ghost[k]=(t+(a[1],),r); return True,a[0]
    if re.search(r'std::operator<< ?<.*ostream.*&, char const\*\)',d):
        b=[]; q=a[1]
        while True:
            c=ex.load(st,ex.padd(q,len(b)),I8)
            if not isint(c): raise Unsupported('text of symbolic length')
            if c==0: break
            b.append(c)
        st.ghost[k]=(t+tuple(b),r); return True,a[0]
    if re.search(r'std::operator<< ?<.*(?:basic_string<|std::string).*const&\)',d): st.ghost[k]=(t+string(ex,st,a[1]),r); return True,a[0]
    m=re.search(r'(?:basic_istream<.*>|istream)::operator>>\(([a-z ]+)&\)',d); c=re.search(r'std::operator>> ?<.*istream.*&, (unsigned |signed )?char&\)',d)
    if c or m and m[1] in WIDTH:
        while r<len(t) and blank(ex,st,t[r]): r+=1
        if r>=len(t): raise Unsupported('extraction at the end of a stream')
        if c: ex.store(st,a[1],t[r],I8); st.ghost[k]=(t,r+1); return True,a[0]
        w=WIDTH[m[1]]; signed='unsigned' not in m[1]; ty=L.Ty(); ty.k='i'; ty.w=w; ty.size=w//8
        if isint(t[r]) and t[r]==ord('#'):
            if len(t)<r+18 or t[r+1]!=ord('s' if signed else 'u'): raise Unsupported('number extracted with another signedness')
            v=simp(z3.Concat(*[z3.Extract(3,0,bv(x,8)-z3.BitVecVal(ord('a'),8)) for x in reversed(t[r+2:r+18])]))
            lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if signed else (0,(1<<w)-1)
            if w<64:
                fits=z3.And(v>=lo,v<=hi) if signed else z3.ULE(v,hi)
                v=simp(z3.If(fits,z3.Extract(w-1,0,v),ex.freshbv('out_of_range',w)))
            ex.store(st,a[1],v,ty); st.ghost[k]=(t,r+18); return True,a[0]
        e=r+(1 if r<len(t) and t[r] in (ord('-'),ord('+')) else 0)
        while e<len(t) and isint(t[e]) and 48<=t[e]<=57: e+=1
        if e<len(t) and not isint(t[e]): raise Unsupported('number followed by an unknown character')
        s=bytes(t[r:e])
        if not re.fullmatch(rb'[-+]?[0-9]+',s): raise Unsupported('no number to extract')
        v=int(s)
        if not((-(1<<(w-1))<=v<1<<(w-1)) if signed else 0<=v<1<<w): raise Unsupported('number out of range')
        ex.store(st,a[1],v&((1<<w)-1),ty); st.ghost[k]=(t,e); return True,a[0]
    return False,None
