#!/usr/bin/env python3
"""nativecheck.py [SECONDS] [UNIT...]: on the unchanged tree no native search may find a failing input (tests of the replay machinery itself)"""
import sys,os,subprocess,tempfile,shutil
sys.path.insert(0,'/verif')
from engine import check as C
from multiprocessing.pool import ThreadPool
secs=sys.argv[1] if len(sys.argv)>1 else '5'; units=sys.argv[2:] or sorted(f for f in os.listdir(C.V+'/contracts') if f.endswith('.cpp'))
tmp=tempfile.mkdtemp()
def build(x):
    tu,san=x; out=f"{tmp}/{tu}.{'san' if san else 'nat'}"
    return x,out,C.compile_native(tu,out,[],san,tmp)
jobs=[]
with ThreadPool(4) as tp:
    for (tu,san),out,e in tp.imap_unordered(build,[(u,s) for u in units for s in (False,True)]):
        if e: print(tu,'san' if san else '','NATIVE BUILD FAILS',e[-500:],flush=True); continue
        for h in C.sh([out]).stdout.split(): jobs.append((out,h,san))
def run(j):
    out,h,san=j
    try: q=C.sh([out,'search',h,'1',secs],timeout=float(secs)*4+60)
    except subprocess.TimeoutExpired: return h,san,'TIMEOUT',''
    return h,san,q.returncode,q.stdout[-600:]+q.stderr[-300:]
with ThreadPool(8) as tp:
    for h,san,rc,o in tp.imap_unordered(run,jobs):
        if rc!=0: print(h,'san' if san else '',rc,o.replace('\n',' | '),flush=True)
        else:
            l=o.strip().splitlines()[-1]
            if l.split()[-1] in('0','1','2'): print(h,'san' if san else '','few',l)
shutil.rmtree(tmp)
