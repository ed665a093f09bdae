#!/bin/bash
# apply each planted bug to /repo in turn, run the check of its property, undo it
cd /verif || exit 1
for d in ${@:-seeded/*/}; do
    d=${d%/}; id=$(basename "$d"); d=/verif/seeded/$id
    p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")
    git -C /repo apply "$d/patch.diff" || { echo "$id does not apply"; continue; }
    t0=$(date +%s)
    out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py "$p" 2>&1); rc=$?
    git -C /repo checkout -- .
    echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s $(echo "$out" | grep -m1 VIOLATION)"
done
