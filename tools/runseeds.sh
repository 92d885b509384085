#!/bin/bash
# Runs the check of each planted bug's property with the bug applied to /repo. usage: runseeds.sh [ID...]
cd /verif
for d in ${@:-$(ls seeded)}; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
    git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
    s=$(date +%s)
    timeout 900 ./check $p > /tmp/runseeds.out 2>&1; rc=$?
    git -C /repo checkout -q -- .
    echo "$d $p exit $rc $(( $(date +%s) - s ))s $(grep -m1 VIOLATION /tmp/runseeds.out)"
done
