#!/bin/bash
# plant.sh ID: validates seeded/ID (patch applies, builds, stable tests pass, demo 0 without and nonzero with the patch)
d=/verif/seeded/$1
git -C /repo diff --quiet || { echo "repo dirty"; exit 9; }
(cd /repo && bash $d/demo.sh >/tmp/plant_$1.log 2>&1); r0=$?
git -C /repo apply $d/patch.diff || { echo "$1: patch does not apply"; exit 8; }
bash /opt/vp/build.sh >/tmp/plant_$1.build 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/plant_$1.json >/dev/null 2>&1
(cd /repo && bash $d/demo.sh >>/tmp/plant_$1.log 2>&1); r1=$?
git -C /repo checkout -- .
t=$(python3 - /tmp/plant_$1.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
s=json.load(open(sys.argv[1]))
names=b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests')
print("tests-ok" if set(names)<=set(s['passed']) else "TESTS-FAIL %s"%(set(names)-set(s['passed'])))
P
)
echo "$1: demo clean=$r0 build=$rb $t demo patched=$r1 $(grep -a FAIL /tmp/plant_$1.log | tail -1)"
rm -f /tmp/plant_$1.log /tmp/plant_$1.build /tmp/plant_$1.json
