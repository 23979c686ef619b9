#!/bin/bash
# run1.sh WORKER ID : tests seed ID (dir /var/bug/out/ID with patch.diff demo.cpp meta.json) in worker W's private copies
W=$1; ID=$2; D=/var/bug/out/$ID; R=/var/bug/w$W
exec unshare -Urmnpf --mount-proc bash -c "
ip link set lo up; mkdir -p $R/tmp; mount --bind $R/tmp /tmp
mount --bind $R/repo /repo; mount --bind $R/verif /verif
cd /repo; git checkout -q -- .
P=\$(python3 -c \"import json;print(json.load(open('$D/meta.json'))['property'])\")
git apply $D/patch.diff || { echo 'PATCH FAILS'; exit 1; }
bash /verif/tools/testrepo.sh && echo TESTS-OK || echo TESTS-BAD
cp -r $D /var/bug/w$W/d; cd /repo
if bash $R/d/demo.sh; then echo DEMO-QUIET-BAD; else echo DEMO-FAILS-OK; fi
bash /verif/check.sh \$P quick > $R/check.log 2>&1; echo CHECK \$P exit \$?
grep -E 'VIOLATION|held' $R/check.log | cut -c1-200 | head -3
[ -n \"\$ALSO\" ] && for q in \$ALSO; do bash /verif/check.sh \$q quick > $R/check2.log 2>&1; echo ALSO \$q exit \$?; done
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-BAD
if bash $R/d/demo.sh; then echo DEMO-PASS-OK; else echo DEMO-CLEAN-BAD; fi
rm -rf $R/d
" > $D.result 2>&1
