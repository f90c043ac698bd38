#!/bin/bash
# tools/seedcheck.sh ID..: run the check of each planted bug's property against it
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git -C /repo apply $D/patch.diff || { echo "$id: does not apply"; continue; }
  o=$(timeout 900 /verif/check.sh $P quick 2>&1); r=$?
  git -C /repo checkout -q -- .
  echo "$id: rc=$r $(echo "$o" | grep -m1 VIOLATION | cut -c1-200)"
done
