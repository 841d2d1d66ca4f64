#!/bin/bash
# tools/seed_verify.sh ID [nocheck] : confirms a planted change in a scratch copy, then runs the property's check on it.
set -u
id="$1"; mode="${2:-check}"
d=/verif/seeded/$id
. /opt/vp/env.sh
[ -d "$d" ] || { echo "no $d"; exit 2; }
cp /verif/tools/demo/demo.sh "$d/demo.sh"; [ -f "$d/common.rs" ] || cp /verif/tools/demo/common.rs "$d/common.rs"
cmp -s /verif/tools/demo/common.rs "$d/common.rs" || cp /verif/tools/demo/common.rs "$d/common.rs"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply --check "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 1; }
cd /repo
if bash "$d/demo.sh" > /tmp/seed_demo.log 2>&1; then echo "$id: demo ok on the clean tree"; else echo "$id: DEMO FAILS ON CLEAN"; tail -12 /tmp/seed_demo.log; exit 1; fi
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$d/patch.diff"
bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "$id: DOES NOT BUILD"; tail -30 /tmp/seed_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/seed_test.json > /tmp/seed_test.log 2>&1
python3 - <<P || { echo "$id: TESTS FAIL"; exit 1; }
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_test.json'))
want=set(b.get('stable') or b.get('passed') or b.get('tests'))
got=set(r.get('passed') or [k for k,v in r.items() if v=='passed'])
miss=want-got
if miss: print(miss); sys.exit(1)
P
bash "$d/demo.sh" > /tmp/seed_demo2.log 2>&1; rc=$?
if [ $rc = 1 ] || [ $rc -ge 100 ]; then echo "$id: demo fails with the change ($rc): $(grep -m1 -E 'BROKEN|panicked' /tmp/seed_demo2.log)"; else echo "$id: DEMO rc=$rc WITH THE CHANGE"; tail -12 /tmp/seed_demo2.log; exit 1; fi
[ "$mode" = nocheck ] && exit 0
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cp /verif/evidence/$p.json /tmp/ev_$p.json 2>/dev/null
VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh check $p > /tmp/seed_check.log 2>&1; rc=$?
echo "$id: check $p rc=$rc $(grep -m1 VIOLATION /tmp/seed_check.log)"
[ $rc = 1 ] || tail -5 /tmp/seed_check.log
