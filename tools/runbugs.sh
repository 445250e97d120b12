#!/bin/bash
# runbugs.sh [id…]: applies each planted bug to /repo, runs its property's quick check, undoes it (development aid)
cd /verif
for d in seeded/*/; do
  id=$(basename "$d"); [ $# -gt 0 ] && [[ " $* " != *" $id "* ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "/verif/$d/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s); out=$(bash check.sh "$p" quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION)"
done
