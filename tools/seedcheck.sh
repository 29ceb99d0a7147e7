#!/bin/bash
# seedcheck.sh ID...: runs the property's check against each planted bug in a clean copy of /repo
for id in "$@"; do
  t=$(mktemp -d /tmp/sc_XXXX); git clone -q /repo $t/r; git -C $t/r apply /verif/seeded/$id/patch.diff || echo "$id PATCH FAILS"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s); VC_REPO=$t/r VC_EVIDENCE=$t/ev /verif/check.sh $p > $t/o 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION $t/o)"
  rm -r -- $t
done
