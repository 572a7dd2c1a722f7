#!/bin/bash
# apply each planted bug to /repo in turn, run the quick check of its property, undo
cd /verif
for d in ${@:-seeded/*/}; do
  d=${d%/}; id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  out=$(VERIF_SEED=1 timeout 900 python3-vt checks/run.py $p 2>/dev/null); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(echo "$out" | grep VIOLATION | head -1 | cut -c1-120)"
done
