#!/bin/bash
# build /repo and run its tests; prints stable tests that no longer pass
bash /opt/vp/build.sh >/tmp/vc_build.log 2>&1 || { tail -20 /tmp/vc_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vc_test.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/vc_test.json'))['passed']
m=[x for x in b if x not in o]; print('missing:',m,'passed',len(o)); raise SystemExit(1 if m else 0)
P
