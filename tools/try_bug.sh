#!/bin/bash
# try_bug.sh ID...: applies each planted bug, builds, runs tests, demo and the check
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo && git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  r="$id $p:"
  bash /opt/vp/build.sh > /tmp/try.build 2>&1 && r="$r built" || r="$r BUILD-FAILED"
  bash /opt/vp/test.sh /tmp/try.json > /tmp/try.test 2>&1
  python3 - <<P && r="$r tests-ok" || r="$r TESTS-FAIL"
import json,sys
t=json.load(open('/tmp/try.json'))['passed']
sys.exit(not all(any(x in y for y in t) for x in ('crystal_data_test','line_search_test')))
P
  s=$(date +%s); bash $d/demo.sh > /tmp/try.demo 2>&1; e=$?; r="$r demo=$e($(( $(date +%s)-s ))s)"
  if [ -z "$NOCHECK" ]; then
  cd /verif; s=$(date +%s); VERIF_SEED=1 timeout 880 python3 check.py $p quick > /tmp/try.check.$id 2>&1; c=$?
  r="$r check=$c($(( $(date +%s)-s ))s) $(grep -o 'VIOLATION property=[A-Z0-9]*' /tmp/try.check.$id | head -1)"
  fi
  git -C /repo checkout -q -- .
  echo "$r"
done
