"""Solver portfolio for proof obligations: z3 (library), then cvc5 and z3 as separate processes in parallel."""
import z3, time, subprocess, tempfile, os, re, hashlib
class Portfolio:
    def __init__(self,opts):
        self.first_ms=opts.get('z3_ms',4000); self.long_s=opts.get('long_s',60)
        self.calls={}
        self.dump=opts.get('dump')
        self.nlong=0
    def solve(self,pc,neg,anys):
        t=time.time()
        s=z3.Solver(); s.set('timeout',min(100,self.first_ms))
        for c in pc: s.add(c)
        s.add(neg)
        r=s.check()
        if r==z3.unsat: return 'unsat','z3',time.time()-t,None
        if r==z3.sat: return 'sat','z3',time.time()-t,s.model()
        from . import poly
        if poly.refuted(neg): return 'unsat','polynomial-identity',time.time()-t,None
        # small-domain variables: tabulated linear forms; first with the sums abstracted (sound for unsat only)
        from . import tab
        tt=None
        try: tt=tab.translate(list(pc)+[neg])
        except (RecursionError,z3.Z3Exception): tt=None
        if tt is not None:
            a=z3.Solver(); a.set('timeout',2000); a.add(*tt[0])
            if a.check()==z3.unsat: return 'unsat','z3-tab',time.time()-t,None
        s=z3.Solver(); s.set('timeout',self.first_ms)
        for c in pc: s.add(c)
        s.add(neg)
        r=s.check()
        if r==z3.unsat: return 'unsat','z3',time.time()-t,None
        if r==z3.sat: return 'sat','z3',time.time()-t,s.model()
        # second stage: external solvers in parallel
        self.nlong+=1
        smt=s.to_smt2()
        names=[]
        for (n,b,v) in anys:
            if v is not None and z3.is_expr(v) and not z3.is_bv_value(v): names.append(v)
        body=smt.replace('(check-sat)','')
        get=''
        decl=[n for n in names if ('|%s|'%n.decl().name() in body or n.decl().name() in body)]
        if decl: get='(get-value (%s))\n'%' '.join('|%s|'%n.decl().name() for n in decl)
        d=tempfile.mkdtemp(prefix='vcsmt'); path=os.path.join(d,'q.smt2')
        open(path,'w').write('(set-option :produce-models true)\n(set-logic ALL)\n'+re.sub(r'\(set-info[^\n]*\n','',body)+'(check-sat)\n'+get)
        T=self.long_s
        ivars=None; tr=None
        from . import bv2int
        try: tr=bv2int.translate(list(pc)+[neg])
        except (RecursionError,z3.Z3Exception): tr=None
        icmds=[]
        if tr is not None:
            si=z3.Solver(); si.add(*tr[0]); ivars=tr[1]
            ib=re.sub(r'\(set-info[^\n]*\n','',si.to_smt2()).replace('(check-sat)','')
            ig='(get-value (%s))\n'%' '.join('|%s|'%v for w,v in ivars.values()) if ivars else ''
            ipath=os.path.join(d,'i.smt2')
            open(ipath,'w').write('(set-option :produce-models true)\n(set-logic ALL)\n'+ib+'(check-sat)\n'+ig)
            icmds=[('cvc5-nia',['cvc5','--nl-ext-tplanes','--tlimit=%d'%(T*1000),ipath]),
                   ('z3-nia',['z3','-T:%d'%T,ipath])]
        if tt is not None:
            si=z3.Solver(); si.add(*tt[0]); si.add(*tt[1])
            ib=re.sub(r'\(set-info[^\n]*\n','',si.to_smt2()).replace('(check-sat)','')
            tpath=os.path.join(d,'t.smt2')
            open(tpath,'w').write('(set-option :produce-models true)\n(set-logic ALL)\n'+ib+'(check-sat)\n'+('(get-value (%s))\n'%' '.join('|%s|'%v for w,v in tt[2].values()) if tt[2] else ''))
            icmds+=[('cvc5-tab-nia',['cvc5','--tlimit=%d'%(T*1000),tpath]),('z3-tab-nia',['z3','-T:%d'%T,tpath])]
        cmds=icmds+[('cvc5-int',['cvc5','--solve-bv-as-int=sum','--nl-ext-tplanes','--tlimit=%d'%(T*1000),path]),
              ('cvc5',['cvc5','--tlimit=%d'%(T*1000),path]),
              ('z3-new',['z3-new','-T:%d'%T,path])]
        procs=[]
        for n,c in cmds:
            try: procs.append((n,subprocess.Popen(c,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True)))
            except OSError: pass
        res=('unknown','none',None)
        end=time.time()+T+5
        pend=list(procs)
        while pend and time.time()<end and res[0]=='unknown':
            for n,p in list(pend):
                if p.poll() is not None:
                    out=p.stdout.read(); pend.remove((n,p)); h=out.strip().split('\n')[0] if out.strip() else ''
                    if h=='unsat': res=('unsat',n,None); break
                    if h=='sat':
                        res=('sat',n,self.parse(out) if not n.endswith('-nia') else self.parsei(out,tt[2] if '-tab' in n else ivars)); break
            time.sleep(0.02)
        for n,p in pend:
            try: p.kill(); p.wait()
            except OSError: pass
        for f in os.listdir(d): os.unlink(os.path.join(d,f))
        os.rmdir(d)
        return res[0],res[1],time.time()-t,(res[2] if res[2] is not None else {})
    def parsei(self,out,ivars):
        m={}
        g={n:v for n,v in re.findall(r'\(\|?([^\s|()]+)\|?\s+(-?\d+|\(- \d+\))\)',out)}
        for nm,(w,iv) in ivars.items():
            v=g.get(iv)
            if v is None: continue
            x=-int(v[2:-1]) if v.startswith('(') else int(v)
            m[nm]=x&((1<<w)-1)
        return m
    def parse(self,out):
        m={}
        for n,v in re.findall(r'\(\|?([^\s|()]+)\|?\s+(#x[0-9a-fA-F]+|#b[01]+|true|false|\(_ bv\d+ \d+\))\)',out):
            if v.startswith('#x'): m[n]=int(v[2:],16)
            elif v.startswith('#b'): m[n]=int(v[2:],2)
            elif v.startswith('(_'): m[n]=int(v.split()[1][2:])
            else: m[n]=1 if v=='true' else 0
        return m
