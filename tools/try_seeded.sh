#!/bin/bash
# usage: try_seeded.sh [ID...]: applies each planted bug to /repo, runs the check
# of its property, undoes it.  For development; no check uses it.
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "/verif/seeded/$id/patch.diff" || { echo "$id DOES NOT APPLY"; continue; }
  t=$(date +%s)
  out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 python3 tools/check.py "$p" 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(($(date +%s)-t))s $(echo "$out" | grep -m1 -B1 VIOLATION | head -1 | cut -c1-160)"
  [ $rc -gt 1 ] && echo "$out" | tail -5
done
