#!/usr/bin/env python3
"""Decides one property: compiles its contract units against /repo's current sources, generates and discharges every
obligation, replays counterexamples natively, writes evidence.   python3-vt -m engine.check <PROPERTY>"""
import sys,os,json,time,subprocess,tempfile,shutil,multiprocessing as mp,re,glob
sys.setrecursionlimit(200000)
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VC_REPO','/repo')
from engine import config
from engine import llvmir as L, sym as S
CL=['-std=c++17','-DESL_RELEASE=1','-DWITH_PYTHON','-w','-Wno-invalid-constexpr','-isystem','/usr/include/python3.12','-include',V+'/include/shim.hpp','-I'+V+'/include','-I'+V+'/contracts','-I'+REPO]
def sh(cmd,timeout=None,**k):
    return subprocess.run(cmd,capture_output=True,text=True,timeout=timeout,**k)
def compile_ir(tu,out,extra):
    r=sh(['clang++','-DVC_SYMBOLIC']+CL+['-fwrapv','-O1','-Xclang','-disable-llvm-passes','-fno-discard-value-names','-fno-threadsafe-statics']+extra+['-emit-llvm','-c',f'{V}/contracts/{tu}','-o',out+'.tmp'])
    if r.returncode: return r.stderr
    r=sh(['opt','-passes=always-inline,function(sroa,early-cse,instsimplify,simplifycfg),globaldce',out+'.tmp','-o',out])
    os.unlink(out+'.tmp')
    return r.stderr if r.returncode else None
SUPPORT=['data/channel','data/output_base','economics/asset','economics/company','economics/finance/bondholder','economics/finance/shareholder','agent','interaction/communicator']
LIBS=['-lboost_serialization','-lboost_python312','-lpython3.12','-lpthread']
def support(tmp,extra,every):
    """archive of /repo's sources, for symbols a contract unit refers to but does not include"""
    out=f'{tmp}/support{int(every)}.a'
    with _lock:
        if os.path.exists(out): return out
        src=[f for f in glob.glob(REPO+'/esl/**/*.cpp',recursive=True)] if every else [f'{REPO}/esl/{x}.cpp' for x in SUPPORT]
        def one(f):
            if not os.path.exists(f): return None
            o=f"{tmp}/{f.replace('/','_')}.o"
            try: r=sh(['clang++']+CL+['-O1','-fPIC','-c',f,'-o',o]+extra,timeout=300)
            except subprocess.TimeoutExpired: return None
            return o if r.returncode==0 else None
        from multiprocessing.pool import ThreadPool
        with ThreadPool(8) as tp: objs=[o for o in tp.map(one,src) if o]
        sh(['ar','rcs',out+'.t']+objs); os.rename(out+'.t',out)
    return out
import threading
_lock=threading.Lock()
def compile_native(tu,out,extra,san=False,tmp=None):
    fl=['-fwrapv']+(['-O1','-g','-fsanitize=address,undefined','-fno-sanitize=signed-integer-overflow','-fno-sanitize-recover=undefined'] if san else ['-O2'])
    objs=[]
    for src in (f'{V}/contracts/{tu}',V+'/include/vc_native.cpp'):
        o=out+'.'+os.path.basename(src)+'.o'
        r=sh(['clang++']+CL+fl+extra+['-c',src,'-o',o])
        if r.returncode: return r.stderr
        objs.append(o)
    def usable():
        try: q=sh([out],timeout=60)
        except subprocess.TimeoutExpired: return False
        return q.returncode==0 and tu.split('.')[0]!='' and '__' in q.stdout
    for archive in (None,False,True):
        lib=[] if archive is None else [support(tmp,extra,archive)]
        r=sh(['clang++']+fl+objs+lib+LIBS+['-o',out])
        if r.returncode==0 and usable(): return None
    r=sh(['clang++']+fl+objs+lib+LIBS+['-o',out,'-no-pie','-Wl,--unresolved-symbols=ignore-all'])
    return None if r.returncode==0 and usable() else 'cannot be linked: '+r.stderr[-800:]
MOD={}
def work(job):
    tu,path,h,opts=job
    t=time.time()
    res=dict(h=h,tu=tu,status='ok',obl={},fail=[],covers={},fns=[],err=None)
    try:
        m=MOD.get(path)
        if m is None: m=MOD[path]=L.Module(path)
        ex=S.Exec(m,dict(opts,deadline=time.time()+opts['budget']))
        try: ex.run(h)
        except S.Unsupported as e: res['status']='undecided'; res['err']=str(e)
        res['obl']=ex.obl; res['covers']=ex.covers; res['paths']=ex.paths; res['kinds']=ex.path_kinds
        res['fail']=[dict(name=f.name,kind=f.kind,detail=f.detail,anys=f.anys,where=f.where) for f in ex.failures]
        res['fns']=sorted({m.dem.get(n,n) for n in ex.fn_seen if repo_fn(m.dem.get(n,n))})
        res['trusted']=sorted(ex.trusted); res['bounded']=ex.bounded; res['stubbed']=sorted(ex.stubbed); res['stats']=ex.stats; res['long']=ex.port.nlong
    except RecursionError as e: res['status']='undecided'; res['err']='recursion limit'
    except Exception as e:
        import traceback
        res['status']='undecided'; res['err']='internal: '+traceback.format_exc()[-1500:]
    res['t']=time.time()-t
    return res
def child(job,conn):
    os.setsid()
    conn.send(work(job)); conn.close()
def schedule(jobs,fallback,t0,first,second):
    """runs the harnesses, eight at a time, each in a process of its own; a stand-in starts as soon as its primary has failed.
    Primaries end by t0+first and stand-ins by t0+second, whatever the solvers do."""
    import signal
    from multiprocessing.connection import wait
    queue=[(j,t0+first) for j in jobs]; running={}; results=[]
    def done(job,r):
        results.append(r)
        if r['h'] in fallback and (r['status']!='ok' or r['fail']): queue.append((fallback[r['h']],t0+second))
    def none(job,why): return dict(h=job[2],tu=job[0],status='undecided',obl={},fail=[],covers={},fns=[],err=why,t=time.time()-t0)
    while queue or running:
        while queue and len(running)<8:
            job,end=queue.pop(0); left=end-time.time()
            if left<1: done(job,none(job,'no time left')); continue
            tu,path,h,opts=job; job=(tu,path,h,dict(opts,budget=min(opts['budget'],left)))
            rx,tx=mp.Pipe(False); p=mp.Process(target=child,args=(job,tx)); p.start(); tx.close()
            running[rx]=(p,job,time.time()+job[3]['budget']+25)
        if not running: continue
        for rx in wait(list(running),timeout=1):
            p,job,_=running.pop(rx)
            try: r=rx.recv()
            except EOFError: r=none(job,'the process ended without an answer')
            p.join(); done(job,r)
        for rx,(p,job,end) in list(running.items()):
            if time.time()>end:
                try: os.killpg(p.pid,signal.SIGKILL)
                except ProcessLookupError: p.kill()
                p.join(); del running[rx]; done(job,none(job,'time limit'))
    return results
def repo_fn(d):
    if 'vc_harness' in d: return False
    d=d.replace('(anonymous namespace)','anon').replace('operator()','operator_call').replace('operator<=','operator_le').replace('operator>=','operator_ge').replace('operator<<','operator_shl').replace('operator<','operator_lt').replace('operator>','operator_gt').replace('operator->','operator_arrow')
    while True:
        e=re.sub(r'<[^<>]*>','',d)
        if e==d: break
        d=e
    return re.match(r'esl::',d.split('(')[0].split(' ')[-1] if 'operator ' not in d else d.split('operator ')[0].split(' ')[-1]) is not None
def main():
    pid=sys.argv[1]; tier=os.environ.get('VERIF_TIER','quick'); seed=int(os.environ.get('VERIF_SEED','1'))
    t0=time.time(); cfg=config.PROPS[pid]
    tmp=tempfile.mkdtemp(prefix='vc_%s_'%pid)
    try: rc=check(pid,cfg,tier,seed,t0,tmp)
    finally: shutil.rmtree(tmp,ignore_errors=True)
    sys.stdout.flush(); os._exit(rc)
def known(pid):
    out=[]
    p=V+'/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            if l.strip():
                e=json.loads(l)
                if e.get('property')==pid and e.get('status')=='known': out.append(e)
    return out
def check(pid,cfg,tier,seed,t0,tmp):
    jobs=[]; err={}; fallback={}
    opts=dict(budget=cfg.get('budget',400 if tier=='quick' else 1500),z3_ms=cfg.get('z3_ms',1000),long_s=cfg.get('long_s',60 if tier=='quick' else 300),unroll=cfg.get('unroll',300))
    pool0=mp.pool.ThreadPool(8) if hasattr(mp,'pool') else None
    from multiprocessing.pool import ThreadPool
    tp=ThreadPool(8)
    tus=cfg['tus']
    extra={}
    def comp(tu):
        out=f'{tmp}/{os.path.basename(tu)}.bc'; extra[tu]=list(cfg.get('flags',[])); e=compile_ir(tu,out,extra[tu])
        # contracts that look at a private member are replaced by ones over the public interface where the member is gone
        if e and 'VC_PUBLIC_ONLY' in open(f'{V}/contracts/{tu}').read():
            extra[tu].append('-DVC_PUBLIC_ONLY'); e2=compile_ir(tu,out,extra[tu])
            if not e2: print(f'note: contract unit {tu} uses the public interface only'); e=None
        return tu,out,e
    for tu,out,e in tp.map(comp,tus):
        if e: err[tu]=e; continue
        m=MOD[out]=L.Module(out)
        for h in sorted(n for n in m.fns if n.startswith(f'vc_harness__{pid}__') and not L.IsDecl(m.fns[n])):
            (fallback.__setitem__(h[:-len('_fallback')],(tu,out,h,opts)) if h.endswith('_fallback') else jobs.append((tu,out,h,opts)))
    if err:
        for k,e in err.items(): print(f'ERROR: contract unit {k} does not compile against the current tree:\n{e[-3000:]}')
        return 2
    if not jobs: print('ERROR: no harness for',pid); return 2
    # where the deductive argument does not go through for the current shape of the code, a bounded stand-in (if there is
    # one) is tried before reporting; it is reported as bounded.  Failing inputs found for the primary still count.
    results=schedule(jobs,fallback,t0,*((420,690) if tier=='quick' else (3000,5400)))
    stand_in={r['h'][:-len('_fallback')] for r in results if r['h'].endswith('_fallback') and r['status']=='ok' and not r['fail']}
    kn=known(pid); knames={(k['harness'],k['obligation']):k for k in kn}
    violations=[]; viol_info=[]; hit=set()
    total=disc=0; btotal=bdisc=0; back={}; solver=0.0; fns=set(); trust=set(); bounded={}; stubbed=set(); samples=[]; undecided=[]; covers=0
    bad=[]
    for r in results:
        short=r['h'].replace('vc_harness__','')
        nfail=0
        for n,o in r['obl'].items():
            if r.get('bounded'): btotal+=o['instances']; bdisc+=o['discharged']
            else: total+=o['instances']; disc+=o['discharged']
            solver+=o['time']
            for b,c in o['backends'].items(): back[b]=back.get(b,0)+c
            samples.append(dict(harness=short,obligation=n,instances=o['instances'],discharged=o['discharged'],by=o['backends']))
        fns.update(r['fns']); trust.update(r.get('trusted',[])); stubbed.update(r.get('stubbed',[])); covers+=len(r['covers'])
        if r.get('bounded'): bounded[short]=r['bounded']
        if r['status']!='ok': undecided.append((short,r['err']))
        ens=[o for o in r['obl'].values() if o['kind']=='ensure']
        if r['status']=='ok' and not r['fail'] and not ens:
            bad.append(f'harness {short} generated no postcondition obligation (vacuous)')
        real=[]
        for f in r['fail']:
            k=knames.get((short,f['name']))
            if k is not None: hit.add((short,f['name']))
            else: real.append(f)
        if real or r['status']!='ok': viol_info.append((r,real))
        print(f"{short}: {r['status']} obligations={sum(o['instances'] for o in r['obl'].values())} discharged={sum(o['discharged'] for o in r['obl'].values())} paths={r.get('paths')} {r['t']:.1f}s"+(f" [{r['err']}]" if r['err'] else ''))
    # expected covers: every vc_cover() reachable on the unchanged tree is listed in covers.json
    exp=json.load(open(V+'/contracts/covers.json')) if os.path.exists(V+'/contracts/covers.json') else {}
    for r in results:
        short=r['h'].replace('vc_harness__','')
        if r['status']!='ok' or r['fail']: continue
        for c in exp.get(short,[]):
            if c not in r['covers']: bad.append(f'{short}: cover {c} is no longer reachable')
    nviol=0; lines=[]
    if viol_info:
        rdir=V+'/replays'; os.makedirs(rdir,exist_ok=True)
        native={}
        for tu in {r['tu'] for r,_ in viol_info}:
            for san in (False,True):
                pass
        def nat(tu,san):
            k=(tu,san)
            if k not in native:
                out=f"{tmp}/{os.path.basename(tu)}.{'san' if san else 'nat'}"
                e=compile_native(tu,out,extra[tu],san,tmp)
                native[k]=None if e else out
                if e: print('note: native build failed:',e[-800:])
            return native[k]
        budget_s=cfg.get('search_s',25 if tier=='quick' else 120)
        per=max(5,budget_s*8/max(1,len(viol_info)))
        def handle(item):
            r,real=item
            short=r['h'].replace('vc_harness__','')
            found=None
            for san in (False,True):
                b=nat_ready.get((r['tu'],san))
                if not b: continue
                for f in real:
                    if f['anys'] is None: continue
                    vals=[str(a[2]) for a in f['anys']]
                    if time.time()>late-30: continue
                    try: q=sh([b,'replay',short]+vals,timeout=min(60,max(1,late-time.time()-20)))
                    except subprocess.TimeoutExpired: continue
                    if q.returncode==1 or q.returncode<0 or (san and q.returncode not in(0,2,3)):
                        found=dict(method='solver counterexample replayed natively'+(' (sanitizers)' if san else ''),obligation=(re.search(r'FAILED (\S+)',q.stdout) or [None,f['name']])[1],values=vals,named=[[a[0],a[2]] for a in f['anys']],output=(q.stdout+q.stderr)[-1500:]); break
                if found: break
            if not found:
                b=nat_ready.get((r['tu'],False))
                if b:
                    left=late-time.time()
                    try: q=sh([b,'search',short,str(seed),str(max(1,min(per,budget_s,left-20)))],timeout=max(1,min(budget_s*4+60,left)))
                    except subprocess.TimeoutExpired: q=None
                    if q is not None and q.returncode==1:
                        vals=re.findall(r'^VALUE (\S+) \S (\d+)',q.stdout,re.M)
                        found=dict(method=f'native search with the same contract (seed {seed})',obligation=(re.search(r'FAILED (\S+)',q.stdout) or [None,'?'])[1],values=[v for _,v in vals],named=[[n,int(v)] for n,v in vals],output=q.stdout[-1500:])
            return r,real,short,found
        late=t0+(860 if tier=='quick' else 9000)
        nat_ready={}
        keys=sorted({(r['tu'],san) for r,_ in viol_info for san in (False,True)})
        for k,b in zip(keys,tp.map(lambda k: nat(*k),keys)): nat_ready[k]=b
        for r,real,short,found in tp.map(handle,viol_info):
            if found is None and r['status']=='ok' and not real: continue
            if found is None and r['h'] in stand_in:
                print(f"note: {short} is not discharged for the current code; its bounded stand-in held"); continue
            path=f'{rdir}/{short}.json'
            doc=dict(property=pid,harness=short,contract_unit='contracts/'+r['tu'],failed_obligations=[dict(name=f['name'],detail=f['detail'],where=f['where'],counterexample=f['anys']) for f in real],
                     verifier_status=r['status'],verifier_message=r['err'],failing_input=found,
                     how_to_replay=f"clang++ {' '.join(CL)} -O2 {V}/contracts/{r['tu']} {V}/include/vc_native.cpp -o /tmp/x -lboost_serialization -lboost_python312 -lpython3.12 -lpthread && /tmp/x replay {short} {' '.join(found['values']) if found else ''}")
            json.dump(doc,open(path,'w'),indent=1,default=str)
            nviol+=1
            names=','.join(f['name'] for f in real) or ('undischarged: '+str(r['err']))
            print(f"failed obligation(s) in {short}: {names}")
            lines.append(f"VIOLATION property={pid} replay={path}"+('' if found else ' no-failing-input-found'))
    # a violation with a failing input is reported first
    lines.sort(key=lambda l: l.endswith('no-failing-input-found'))
    for k in kn:
        if (k['harness'],k['obligation']) in hit: print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev=dict(property=pid,tier=tier,seed=seed,level=cfg.get('level','proof'),
      coverage=dict(obligations=total,discharged=disc,bounded_obligations=btotal,bounded_discharged=bdisc,checker_cmd=f'python3-vt -m engine.check {pid}',
        trusted_base=config.COMMON_TRUST+sorted(trust),
        functions_under_contract=sorted(fns),replaced_by_contract_at_calls=sorted(stubbed),backends=back,solver_time_s=round(solver,2),harnesses=len(jobs),covers_reached=covers,
        bounded_harnesses=bounded,undecided=undecided,decided_by_stand_in=sorted(x.replace('vc_harness__','') for x in stand_in),paths=sum(r.get('paths',0) or 0 for r in results),
        samples=samples[:40],explanation='obligations/discharged count the proof obligation instances generated from the current source on this run by contracts without a bound; bounded_obligations/bounded_discharged those of the harnesses listed under bounded_harnesses, which are bounded stand-ins and not proofs'),
      assumptions=cfg.get('assumes',[]),wall_s=round(time.time()-t0,2),violations=nviol)
    os.makedirs(V+'/evidence',exist_ok=True)
    json.dump(ev,open(f'{V}/evidence/{pid}.json','w'),indent=1,default=str)
    print(f'{pid}: {len(jobs)} harnesses, {total} unbounded obligations, {disc} discharged, {btotal} bounded, {bdisc} discharged ({back}), {len(fns)} functions of /repo under contract, {time.time()-t0:.1f}s')
    if lines:
        for l in lines: print(l)
        return 1
    if bad:
        for b in bad: print('ERROR:',b)
        return 2
    return 0
if __name__=='__main__': main()
