#!/bin/bash
# tools/trybugs.sh ID...: run each planted bug's property check against it (in /repo, undone afterwards).
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  s=$(date +%s)
  o=$(VERIF_SEED=1 VERIF_TIER=quick python3-vt vcg/run.py $p 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$c $(( $(date +%s) - s ))s: $(echo "$o" | grep VIOLATION | head -2 | tr '\n' ' ')"
  [ $c = 1 ] || [ $c = 0 ] || echo "$o" | tail -5
done
