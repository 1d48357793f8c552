#!/bin/bash
# tools/trybug.sh ID  -- confirm a planted bug in /repo: applies, builds, tests pass, demo 0/nonzero, check outcome
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 2; }
if [ -z "$NODEMO" ]; then bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo clean rc=$?"; fi
git apply $d/patch.diff || exit 3
if [ -z "$NODEMO" ]; then
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
s=b.get('stable') or b.get('passed') or b
print('missing stable:', [x for x in s if x not in t['passed']])
X
bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/demo.out
fi
( cd /verif && time ./check $p quick ) 2>&1 | cut -c1-300
git -C /repo checkout -- .
[ -z "$NODEMO" ] && bash /opt/vp/build.sh >/dev/null 2>&1
