#!/bin/bash
# plant.sh ID PROP: takes the working-tree diff of /repo as the patch of seeded/ID, confirms it, and undoes it
set -u
d=/verif/seeded/$1; mkdir -p $d
git -C /repo diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no diff"; exit 1; }
cd /repo
bash /opt/vp/build.sh > /tmp/plant.build 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/plant.build; }
bash /opt/vp/test.sh /tmp/plant.json > /tmp/plant.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
m=[x for x in b['stable'] if x not in r['passed']]
print('stable tests failing:', m)
P
bash $d/demo.sh > /tmp/plant.demo 2>&1; echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/plant.demo
(cd /verif && timeout 900 python3 tools/check.py $2 | tail -4)
git -C /repo checkout -- .
