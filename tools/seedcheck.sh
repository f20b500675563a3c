#!/bin/bash
# seedcheck.sh [id...]: apply each planted bug, run its property's check, undo
cd /verif/seeded; [ $# = 0 ] && set -- *
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  t0=$(date +%s)
  bash /verif/run.sh $p >/tmp/sc.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(grep VIOLATION /tmp/sc.log | head -1 | sed 's/.*replay=//') $(grep -v VIOLATION /tmp/sc.log | head -1 | cut -c1-140)"
done
