#!/bin/bash
# seedrun.sh ID... : applies the planted bug to /repo, runs the check of its property, undoes it
V="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
 p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
 git -C /repo apply "$V/seeded/$id/patch.diff" || { echo "$id APPLY-FAILED"; continue; }
 t0=$SECONDS
 out=$(cd $V && VERIF_SEED=1 VERIF_TIER=quick bash run.sh $p quick 2>&1); rc=$?
 git -C /repo checkout -- .
 echo "$id $p rc=$rc $((SECONDS-t0))s $(echo "$out" | grep -a VIOLATION | head -4 | tr '\n' '|')"
done
