#!/bin/bash
# tools/seed_check.sh ID... : runs the property's quick check against each planted change.
for id in "$@"; do
d=/verif/seeded/$id
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$d/patch.diff" || exit 2
p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t0=$(date +%s)
VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh check $p > /tmp/seed_check_$id.log 2>&1; rc=$?
git -C /repo checkout -q -- .
echo "$id: check $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/seed_check_$id.log)"
[ $rc = 1 ] || tail -3 /tmp/seed_check_$id.log
done
