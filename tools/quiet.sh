#!/bin/bash
# tools/quiet.sh SEED [P...] : runs the quick checks, prints those which are not quiet
seed=$1; shift
[ $# = 0 ] && set -- $(python3 -c "import json;print(*[c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']])" 2>/dev/null || ls /verif/evidence | sed 's/.json//')
/verif/check.sh build || exit 2
for p in "$@"; do
VERIF_SEED=$seed VERIF_TIER=quick bash /verif/check.sh check $p > /tmp/quiet_$p.log 2>&1; rc=$?
echo "$p rc=$rc $(tail -1 /tmp/quiet_$p.log)"
done
