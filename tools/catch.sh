#!/bin/bash
# catch.sh [ID..]: applies each planted bug to /repo, runs the quick check of its property and undoes it.
cd /verif
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  bash check.sh $prop quick > /tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id: $prop rc=$rc $(( $(date +%s) - s ))s $(grep -c "^VIOLATION property=$prop " /tmp/catch.$id.log) violation line(s)"
done
