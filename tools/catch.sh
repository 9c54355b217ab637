#!/bin/bash
# catch.sh [ID...]: runs each planted bug's check with the bug applied to /repo, then undoes it.
cd /verif/seeded
for id in ${@:-*}; do
    p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
    s=$(date +%s); (cd /verif && VERIF_TIER=quick timeout 900 python3 run.py $p > /tmp/catch_$id.log 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$id: exit $rc, $(( $(date +%s) - s )) s: $(grep -m1 VIOLATION /tmp/catch_$id.log || tail -1 /tmp/catch_$id.log | cut -c1-200)"
done
