#!/bin/bash
# Development tool: run the check of its property (or the checks given by CHECKS) against each planted bug,
# and note in tools/seed_results.txt what came out (gen_design.py puts that into DESIGN.md).
cd /verif
mkdir -p /tmp/seed
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s)
    timeout 900 ./check $c > /tmp/seed/$d.$c.log 2>&1; rc=$?
    e=$(( $(date +%s) - s ))
    v=$(grep -a "^VIOLATION property=$c" /tmp/seed/$d.$c.log | head -1 | cut -c1-120)
    echo "$d $c rc=$rc ${e}s $v"
    if [ $rc = 1 ] && [ -n "$v" ]; then r=caught; else r=missed; fi
    touch tools/seed_results.txt
    { grep -v "^$d $c " tools/seed_results.txt; echo "$d $c $r"; } | sort > /tmp/seed/results.new
    cp /tmp/seed/results.new tools/seed_results.txt
  done
  git -C /repo checkout -q -- .
done
