#!/usr/bin/env python3
"""seedmake.py BUGS.py [N] [only...]: makes and confirms planted bugs in the scratch copy /tmp/sw/N (see scratch.sh); writes /verif/seeded/<id>.
BUGS.py defines BUGS=[dict(id,prop,edits=[(file,old,new)],demo,needs,breaks)]"""
import sys,os,subprocess,json,shutil,runpy
bugs=runpy.run_path(sys.argv[1])['BUGS']; n=sys.argv[2] if len(sys.argv)>2 else '1'; only=sys.argv[3:]
D=f'/tmp/sw/{n}'; OUT='/verif/seeded'
DEMO='''#!/bin/bash
# builds the demonstration against the sources and library in the current directory and runs it
d=$(dirname "$(realpath "$0")"); t=$(mktemp -d); trap 'rm -r -- "$t"' EXIT
g++ -std=c++17 -O1 -include cstdint -DESL_RELEASE=1 -DWITH_PYTHON -w -I"$PWD" -isystem /usr/include/python3.12 "$d/demo.cpp" -o "$t/demo" -L"$PWD/_build" -lesl %s || exit 3
cd "$t" && LD_LIBRARY_PATH="$OLDPWD/_build" timeout 60 ./demo
'''
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def stable():
    r=sh(f'python3 /opt/vp/run_boost_tests.py {D}/_build')
    ok={l[5:].strip() for l in r.stdout.splitlines() if l.startswith('PASS')}
    return [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if x not in ok]
for b in bugs:
    if only and b['id'] not in only: continue
    d=f'{OUT}/{b["id"]}'
    if os.path.exists(d) and not only: continue
    sh(f'git -C {D} checkout -q -- .')
    sd=f'/tmp/sw/demo_{b["id"]}'; shutil.rmtree(sd,ignore_errors=True); os.makedirs(sd)
    open(sd+'/demo.cpp','w').write(b['demo']); open(sd+'/demo.sh','w').write(DEMO%b.get('libs','-lboost_serialization -lboost_python312 -lpython3.12 -lpthread'))
    os.chmod(sd+'/demo.sh',0o755)
    bad=None
    r0=sh(f'bash /tmp/sw/build{n}.sh')
    base=sh(f'cd {D} && bash {sd}/demo.sh')
    if base.returncode: bad='demo fails on base: '+base.stdout[-300:]+base.stderr[-500:]
    if not bad:
        for f,o,w in b['edits']:
            p=f'{D}/{f}'; s=open(p).read()
            if s.count(o)!=1: bad=f'{f}: {s.count(o)} matches of {o!r}'; break
            open(p,'w').write(s.replace(o,w))
    if not bad:
        patch=sh(f'git -C {D} diff').stdout
        r=sh(f'bash /tmp/sw/build{n}.sh')
        if r.returncode: bad='build: '+r.stdout[-1500:]+r.stderr[-500:]
    if not bad:
        m=stable()
        if m: bad=f'tests fail: {m}'
    if not bad:
        q=sh(f'cd {D} && bash {sd}/demo.sh')
        if q.returncode==0: bad='demo passes with the change'
        elif q.returncode==3: bad='demo does not build with the change'
    sh(f'git -C {D} checkout -q -- .')
    if bad: print(b['id'],'BAD',bad,flush=True); continue
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(patch)
    for x in ('demo.cpp','demo.sh'): shutil.copy(f'{sd}/{x}',d)
    json.dump(dict(property=b['prop'],needs=b['needs'],what_it_breaks=b['breaks']),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(sd)
    print(b['id'],'ok',flush=True)
sh(f'bash /tmp/sw/build{n}.sh')
