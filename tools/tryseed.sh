#!/bin/bash
# tools/tryseed.sh ID...: build, tests, demo and the property's check, with and without the seeded change (in /repo, undone afterwards)
export RUST_BACKTRACE=0
cd /repo
for id in "$@"; do
 S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
 bash $S/demo.sh > /tmp/ts-demo0.log 2>&1; d0=$?
 git apply $S/patch.diff || { echo "$id: does not apply"; continue; }
 bash /opt/vp/build.sh > /tmp/ts-build.log 2>&1; b=$?
 bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts-test.log 2>&1
 t=$(python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); d=json.load(open('/tmp/ts.json')); p=set(d.get('passed',[]))
print(len(s-p))")
 bash $S/demo.sh > /tmp/ts-demo1.log 2>&1; d1=$?
 (cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 check.py $P > /tmp/ts-check.log 2>&1); c=$?
 git checkout -q -- .
 echo "$id: demo0=$d0 build=$b tests_missing=$t demo1=$d1 check=$c $(grep -c '^VIOLATION' /tmp/ts-check.log) $(grep '^contracts' /tmp/ts-check.log) $(grep -o 'no-failing-input-found' /tmp/ts-check.log|head -1)"
done
bash /opt/vp/build.sh > /tmp/ts-build.log 2>&1
git status --short
