#!/bin/bash
# usage: catch.sh [ID...]   applies each planted bug to /repo, runs its property's quick check, undoes it
cd /verif/seeded
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=(*)
trap 'git -C /repo checkout -q -- .' EXIT
for id in "${ids[@]}"; do
    p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
    git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id $p DOES-NOT-APPLY"; continue; }
    t=$(date +%s)
    out=$(VERIF_SEED=${SEED:-1} timeout 900 /verif/check.sh $p quick 2>&1); rc=$?
    git -C /repo checkout -q -- .
    v=$(grep -m1 "^VIOLATION property=$p " <<<"$out")
    echo "$id $p rc=$rc $(( $(date +%s) - t ))s ${v:-MISSED} $(grep -v VIOLATION <<<"$out" | tail -1 | cut -c1-150)"
done
