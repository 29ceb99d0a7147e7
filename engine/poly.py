"""Identities of polynomials modulo 2^w: a bit-vector equality between two terms built from +, -, * over opaque atoms holds
for every value of the atoms when both sides expand to the same polynomial."""
import z3
LIMIT=400
class Big(Exception): pass
def expand(e,memo,atoms):
    k=e.get_id()
    if k in memo: return memo[k]
    w=e.size(); M=(1<<w)-1
    op=e.decl().kind()
    if z3.is_bv_value(e):
        v=e.as_long(); r={():v} if v else {}
    elif op==z3.Z3_OP_BADD or op==z3.Z3_OP_BSUB or op==z3.Z3_OP_BNEG:
        r={}
        for i,c in enumerate(e.children()):
            s=-1 if (op==z3.Z3_OP_BNEG or (op==z3.Z3_OP_BSUB and i)) else 1
            for m,v in expand(c,memo,atoms).items():
                v=(r.get(m,0)+s*v)&M
                if v: r[m]=v
                else: r.pop(m,None)
    elif op==z3.Z3_OP_BMUL:
        r={():1}
        for c in e.children():
            q=expand(c,memo,atoms); n={}
            if len(q)*len(r)>4*LIMIT: raise Big
            for m1,v1 in r.items():
                for m2,v2 in q.items():
                    d=dict(m1)
                    for a,p in m2: d[a]=d.get(a,0)+p
                    m=tuple(sorted(d.items())); v=(n.get(m,0)+v1*v2)&M
                    if v: n[m]=v
                    else: n.pop(m,None)
            r=n
    elif op==z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
        s=e.arg(1).as_long()
        r={m:(v<<s)&M for m,v in expand(e.arg(0),memo,atoms).items()} if s<w else {}
        r={m:v for m,v in r.items() if v}
    else:
        atoms[k]=e; r={((k,1),):1}
    if len(r)>LIMIT: raise Big
    memo[k]=r
    return r
def equal(a,b):
    memo={}; atoms={}
    try: return expand(a,memo,atoms)==expand(b,memo,atoms)
    except (Big,RecursionError): return False
def refuted(neg):
    """neg is false for every value"""
    if z3.is_false(neg): return True
    if z3.is_or(neg): return all(refuted(c) for c in neg.children())
    if z3.is_and(neg): return any(refuted(c) for c in neg.children())
    if z3.is_not(neg):
        c=neg.arg(0)
        if z3.is_and(c): return all(refuted(z3.Not(x)) for x in c.children())
        if z3.is_not(c): return refuted(c.arg(0))
        if z3.is_eq(c) and z3.is_bv(c.arg(0)): return equal(c.arg(0),c.arg(1))
    if z3.is_distinct(neg) and neg.num_args()==2 and z3.is_bv(neg.arg(0)): return equal(neg.arg(0),neg.arg(1))
    return False
