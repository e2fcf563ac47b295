#!/bin/bash
# runseeds.sh [ids]: applies each planted change to /repo, runs its property's quick check, undoes it
cd /verif/seeded
for d in ${@:-*}; do
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(cd /verif && timeout 900 python3-vt cdv/check.py $prop --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d rc=$rc $(echo "$out" | grep -a VIOLATION | head -1 | grep -ao 'VIOLATION.*')  [$(echo "$out" | tail -1)]"
done
