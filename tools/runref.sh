#!/bin/bash
# runref.sh DIFF [ids]: apply a behaviour-preserving change to /repo, run the checks, undo; prints what is not quiet.
d=$1; shift
trap 'git -C /repo checkout -q -- .' EXIT
git -C /repo apply "$d" || exit 2
for c in ${*:-$(seq -f "C%02g" 1 32)}; do
  timeout 900 bash /verif/check.sh $c > /tmp/ref_$c.log 2>&1; rc=$?
  if [ $rc = 0 ] && ! grep -q ^VIOLATION /tmp/ref_$c.log; then echo -n "$c ok "; else echo "$c NOT QUIET rc=$rc"; tail -3 /tmp/ref_$c.log; fi
done; echo
