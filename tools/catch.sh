#!/bin/bash
# catch.sh ID... : run the property's quick check against each planted bug
cd /verif
for id in "$@"; do
    p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "/repo dirty"; exit 1; }
    git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id NO APPLY"; continue; }
    s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $p quick $OPT >/tmp/catch.log 2>&1; r=$?
    git -C /repo checkout -q -- .
    echo "$id $p exit=$r $(( $(date +%s)-s ))s $([ $r = 1 ] && grep -q "^VIOLATION property=$p" /tmp/catch.log && echo CAUGHT || echo MISSED) $(grep -m2 -i 'class' /tmp/catch.log | cut -c1-150 | tr '\n' ' ')"
done
git -C /verif checkout -q -- evidence 2>/dev/null; true
