#!/bin/bash
# catch.sh <id>...: runs the quick check of the property of each planted bug with the bug applied.
cd /verif
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
 s=$(date +%s)
 VERIF_SEED=${VERIF_SEED:-1} timeout 900 ./check.sh $p quick >/tmp/w/catch.$id.log 2>&1; r=$?
 git -C /repo checkout -- .
 echo "$id $p: exit $r, $(( $(date +%s) - s )) s: $(grep -c '^VIOLATION' /tmp/w/catch.$id.log) $(grep -m1 '^VIOLATION' /tmp/w/catch.$id.log)"
done
