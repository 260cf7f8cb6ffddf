#!/bin/bash
# runseed.sh ID... : apply each planted bug to /repo, run the check of its property, undo
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  timeout 900 /opt/venv/bin/python /verif/check.py $p > /tmp/rs_$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(grep -c '^VIOLATION' /tmp/rs_$id.log) $(grep '^obligation' /tmp/rs_$id.log | cut -d: -f1 | tr '\n' ' ') $(grep -c no-failing /tmp/rs_$id.log)"
done
