#!/bin/bash
# runseed.sh [id...]: apply each planted bug to /repo in turn, run its property's quick check, undo it.
cd /verif || exit 1
[ $# -gt 0 ] || set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  out=$(bash check.sh "$prop" quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$id $prop rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -m1 VIOLATION | cut -c1-150)"
done
