#!/bin/bash
# seedcheck.sh [ID...]: applies each planted bug to /repo, runs its property's check, undoes it.
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls /verif/seeded)}; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); /verif/check.sh $p > /tmp/seedcheck.$id.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc violations=$(grep -c ^VIOLATION /tmp/seedcheck.$id.out) $(($(date +%s)-s))s"
done
