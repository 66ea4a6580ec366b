#!/bin/bash
# run_seeds.sh [id...]: runs the check of each planted bug's property against it (in /repo, undone afterwards)
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply seeded/$d/patch.diff 2>/dev/null || git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  t0=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(($(date +%s)-t0))s $(echo "$out" | grep -E 'VIOLATION' | head -2)"
done
