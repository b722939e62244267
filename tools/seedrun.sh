#!/bin/bash
# usage: seedrun.sh ID... : applies each planted change to /repo, runs the check of its property, undoes it; prints caught or MISSED
for id in "$@"; do
  S=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  git -C /repo apply $S/patch.diff || { echo "$id: does not apply"; continue; }
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 /verif/check.py $p > /tmp/seedrun.$id.log 2>&1; c=$?
  git -C /repo checkout -q -- .
  if [ $c = 1 ] && grep -q "^VIOLATION property=$p" /tmp/seedrun.$id.log; then r=caught; else r="MISSED ($c)"; fi
  echo "$id $p: $r $(grep -c ^VIOLATION /tmp/seedrun.$id.log) $(grep -m1 -i 'sig' /tmp/seedrun.$id.log | cut -c1-160)"
done
