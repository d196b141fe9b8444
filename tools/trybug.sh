#!/bin/bash
# Applies a seed to /repo, runs the check of its property (and further ones given), and undoes it.
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id DOES NOT APPLY"; continue; }
  python3 checks/$p.py quick > /tmp/trybug-$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/trybug-$id.log) violations"
done
