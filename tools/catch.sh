#!/bin/bash
# catch.sh [id...]: run each planted bug against the check of its property (quick).
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  bash run.sh $p quick > /tmp/catch.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -m1 -E '^VIOLATION' /tmp/catch.log) | $(grep -m1 '^section' /tmp/catch.log | cut -c1-160)"
done
