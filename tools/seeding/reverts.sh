#!/bin/bash
# reverts.sh: undoes each fix commit in turn in /repo's working tree and runs the check of its property.
grep '^fixed:' /verif/known_findings.txt | while read -r _ p c _; do
  p=${p#property=}
  git -C /repo show $c -- src | git -C /repo apply -R --recount - 2>/dev/null || { echo "CANNOT REVERT $c $p"; git -C /repo checkout -q -- .; continue; }
  out=$(/verif/run.sh check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$c $p rc=$rc $(echo "$out" | grep -m1 -A3 VIOLATION | head -3 | tr '\n' ' ' | cut -c1-300)"
done
