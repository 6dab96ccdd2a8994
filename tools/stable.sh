#!/bin/bash
# runs the repo's tests and reports stable tests that no longer pass
O=$(mktemp)
bash /opt/vp/build.sh >/tmp/stable_build.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/stable_build.log; exit 1; }
bash /opt/vp/test.sh $O >/dev/null 2>&1
python3 - $O <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bad=[t for t in b['stable'] if t not in o['passed']]
print('stable',len(b['stable']),'missing',bad)
sys.exit(1 if bad else 0)
PY
R=$?
rm -f "$O"
exit $R
