#!/bin/bash
# sens.sh [id...]: applies each seeded change to /repo, runs its property's check, undoes it.
cd /verif/seeded
for i in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "APPLY $i"; continue; }
  t=$SECONDS
  out=$(/verif/run.sh check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $((SECONDS-t))s $(echo "$out" | grep -c '^VIOLATION property='$p) $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc -eq 1 ] || echo "$out" | tail -5
done
