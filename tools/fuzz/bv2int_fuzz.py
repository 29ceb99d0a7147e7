import sys; sys.path.insert(0,'/verif')
import z3,random,time
from engine import bv2int
# fuzz: random terms over small widths; compare sat of BV and Int versions
random.seed(int(sys.argv[1]) if len(sys.argv)>1 else 1)
def rnd(vs,d,w):
    if d==0 or random.random()<.1:
        c=[v for v in vs if v.size()==w]
        return random.choice(c) if c and random.random()<.7 else z3.BitVecVal(random.getrandbits(w),w)
    k=random.randrange(16); r=lambda: rnd(vs,d-1,w)
    if k==0: return r()+r()
    if k==1: return r()-r()
    if k==2: return r()*r()
    if k==3: return -r()
    if k==4: return ~r()
    if k==5: return z3.UDiv(r(),r())
    if k==6: return z3.URem(r(),r())
    if k==7: return r()/r()
    if k==8: return z3.SRem(r(),r())
    if k==9: return z3.If(rb(vs,d-1),r(),r())
    if k==10: return r()<<random.randrange(w+1)
    if k==11: return z3.LShR(r(),random.randrange(w+1))
    if k==12: return r()>>random.randrange(w+1)
    if k==13 and w==8: return random.choice([z3.ZeroExt,z3.SignExt])(4,rnd(vs,d-1,4))
    if k==13: x=rnd(vs,d-1,8); l=random.randrange(5); return z3.Extract(l+3,l,x)
    if k==14 and w==8: return z3.Concat(rnd(vs,d-1,4),rnd(vs,d-1,4))
    if k==15: return r()&((1<<random.randrange(1,w))-1)
    return r()+1
def rb(vs,d):
    k=random.randrange(9); w=random.choice([4,8]); a,b=rnd(vs,d,w),rnd(vs,d,w)
    return [a==b,a!=b,a<b,a<=b,z3.ULT(a,b),z3.ULE(a,b),a>=b,z3.UGE(a,b),z3.And(a<b,b>3)][k]
bad=0;done=0
for it in range(400):
    vs=[z3.BitVec('a',4),z3.BitVec('b',4),z3.BitVec('c',8),z3.BitVec('d',8)]
    cs=[rb(vs,2) for _ in range(random.randrange(1,4))]
    if random.random()<.5: cs+=[vs[2]<=z3.BitVecVal(20,8),vs[2]>=z3.BitVecVal(-20,8)]
    if random.random()<.3: cs+=[z3.ULE(vs[3],50)]
    cs=[z3.simplify(c) for c in cs]
    tr=bv2int.translate(cs)
    if tr is None: continue
    s=z3.Solver(); s.add(cs); r1=s.check()
    t=z3.Solver(); t.set('timeout',3000); t.add(tr[0]); r2=t.check()
    if r2==z3.unknown: continue
    done+=1
    if r1!=r2: bad+=1; print('MISMATCH',r1,r2,cs); break
print(done,bad)
