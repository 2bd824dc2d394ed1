#!/bin/bash
# Author's aid: applies each seeded change to /repo, runs its property's quick check, undoes it.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  t0=$(date +%s); out=$(node check.js $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(( $(date +%s)-t0 ))s $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -m1 -A1 '^  [a-z]' | tr '\n' ' ' | cut -c1-150)"
done
