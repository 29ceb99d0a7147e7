#!/usr/bin/env python3
import json,sys
sys.path.insert(0,'/verif')
from engine.config import PROPS
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
try: from engine.na import NA
except ImportError: NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in PROPS:
        c=PROPS[i]
        checks.append(dict(property=i,quick_cmd=f'./check.sh {i}',thorough_cmd=f'VERIF_TIER=thorough ./check.sh {i}',
          technique='deductive verification of contracts on the real code (verification conditions from LLVM IR, discharged by z3/cvc5)',
          level=c.get('level','proof'),level_note=c.get('note','Every obligation generated from the current source is discharged for all inputs; trusts clang\'s front end, the VC generator and the SMT solvers.')))
    else: na.append(dict(property=i,reason=NA.get(i,'No contract has been written for this yet.')))
m=dict(version=1,setup_cmd='python3-vt -c "import z3" && clang++ --version >/dev/null && cvc5 --version >/dev/null',checks=checks,not_applicable=na,
 notes='See DESIGN.md. Checks read /repo\'s working tree on every run; VC_REPO overrides the tree for experiments. No hooks are needed in /repo.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'not applicable')
