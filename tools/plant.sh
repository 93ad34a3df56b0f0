#!/bin/bash
# plant.sh <seed-id> : confirm a planted bug (build, stable tests, demo before/after) and run its property's check on it.
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 3; }
bash /opt/vp/build.sh >/dev/null 2>&1; bash $D/demo.sh >/tmp/demo0.txt 2>&1; R0=$?
git apply $D/patch.diff || { echo "patch does not apply"; exit 3; }
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/test.sh /tmp/plant.json >/tmp/plant_build.txt 2>&1; bash /opt/vp/build.sh >>/tmp/plant_build.txt 2>&1; RB=$?
T=$(python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
s=b.get('stable') or b.get('passed') or b.get('tests') or b
s=set(s if isinstance(s,list) else s.get('passed',[])); print(len(s-set(r['passed'])))
X
)
bash $D/demo.sh >/tmp/demo1.txt 2>&1; R1=$?
cd /verif; O=$(python3 analysis/check.py $P quick 2>&1); RC=$?
echo "$ID property=$P demo0=$R0 build=$RB stable_lost=$T demo1=$R1 check=$RC"
[ "$2" = -v ] && echo "$O" | cut -c1-300 | head -8
