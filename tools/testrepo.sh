#!/bin/bash
# Rebuilds /repo, runs its tests and compares with the stable list.
OUT=/tmp/testrepo.$$.json
bash /opt/vp/test.sh $OUT > /tmp/testrepo.$$.log 2>&1
python3 - $OUT <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed'])
print("passed",len(o["passed"]),"missing",len(m),*(sorted(m)[:3]))
sys.exit(1 if m else 0)
P
rc=$?
rm -f $OUT /tmp/testrepo.$$.log
exit $rc
