import sys,time,json; sys.setrecursionlimit(100000)
from engine import llvmir as L, sym as S
def main():
    ll,h=sys.argv[1:3]; trace='-t' in sys.argv
    t=time.time(); m=L.Module(ll); print('load',round(time.time()-t,2))
    hs=[n for n in m.fns if n.startswith('vc_harness__') and (h=='all' or h in n)]
    for n in hs:
        ex=S.Exec(m,dict(trace=trace,deadline=time.time()+300)); t=time.time()
        try: ex.run(n); st='ok'
        except S.Unsupported as e: st='UNSUPPORTED '+str(e)
        except Exception as e:
            import traceback; traceback.print_exc(); st='CRASH '+repr(e)
        print('==',n,st,'paths',ex.paths,ex.path_kinds,'instrs',ex.stats['instrs'],'feas',ex.stats['feas'],round(ex.stats['feas_s'],2),'long',ex.port.nlong,'t',round(time.time()-t,2),'covers',ex.covers)
        for k,o in ex.obl.items():
            print('   ',k,o['instances'],o['discharged'],o['backends'],round(o['time'],2))
        for f in ex.failures:
            print('  FAIL',f.name,f.detail,f.anys); 
            for w in f.where: print('        at',w)
main()
