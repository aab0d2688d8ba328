#!/bin/bash
# Runs each planted bug's own check against a scratch copy of /repo. usage: runseeds.sh [regex]
for d in /verif/seeded/*/; do
  id=$(basename $d); [[ $id =~ ${1:-.} ]] || continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  rm -rf /tmp/sd/repo; mkdir -p /tmp/sd; git clone -q /repo /tmp/sd/repo
  git -C /tmp/sd/repo apply $d/patch.diff || { echo "$id PATCH FAILS"; continue; }
  NK_REPO=/tmp/sd/repo NK_CACHE=/tmp/sd/cache NK_EVIDENCE=/tmp/sd/ev python3 /verif/nkcheck/main.py $p > /tmp/sd/log 2>&1
  rc=$?; echo "$id $p rc=$rc $(grep -c VIOLATION /tmp/sd/log) $(grep -m1 -o '^  \[[^]]*\]' /tmp/sd/log)"
done
