#!/bin/bash
# catch.sh ID...: applies a planted change to /repo, runs its property's check, undoes it
for i in "$@"; do
  d=/verif/seeded/$i
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$i: patch does not apply"; continue; }
  s=$(date +%s)
  bash /verif/check.sh $p quick > /tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION /tmp/catch.out)"
done
