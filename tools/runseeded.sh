#!/bin/bash
# runseeded.sh [ids]: apply each planted bug to /repo, run its property's check, undo; one line per bug.
cd /verif/seeded; ids=${*:-$(ls)}
trap 'git -C /repo checkout -q -- .' EXIT
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  s=$(date +%s); bash /verif/check.sh $p > /tmp/rs_$i.log 2>&1; rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  v=$(grep -c "^VIOLATION property=$p " /tmp/rs_$i.log)
  if [ $rc = 1 ] && [ $v -ge 1 ]; then echo "$i CAUGHT by $p $((e-s))s"; else echo "$i MISSED rc=$rc v=$v $((e-s))s"; fi
done
