#!/bin/bash
# tryseeded.sh [ids]: in a scratch copy, does each planted bug build, pass the tests and fail its demo?
S=/tmp/seedcopy; rm -rf /tmp/seedcopy; cp -a /repo $S
cd /verif/seeded; ids=${*:-$(ls)}
export CARGO_NET_OFFLINE=true
for i in $ids; do
  d=/tmp/seeddemo; rm -rf /tmp/seeddemo; cp -r /verif/seeded/$i $d; rm -f $d/patch.diff $d/meta.json
  ( cd $S && bash $d/demo.sh ) > /tmp/demo_clean.log 2>&1; c=$?
  git -C $S apply /verif/seeded/$i/patch.diff || { echo "$i DOES NOT APPLY"; continue; }
  ( cd $S && cargo test --offline 2>&1 ) > /tmp/demo_test.log; t=$?
  ( cd $S && bash $d/demo.sh ) > /tmp/demo_bug.log 2>&1; b=$?
  git -C $S checkout -q -- .
  if [ $c = 0 ] && [ $t = 0 ] && [ $b != 0 ] && [ $b != 3 ] && [ $b != 4 ]; then echo "$i ok"; else echo "$i BAD clean=$c tests=$t bug=$b"; tail -5 /tmp/demo_clean.log; grep -E "^error|FAILED|failed" -A5 /tmp/demo_test.log | head -20; tail -3 /tmp/demo_bug.log; fi
done
rm -rf /tmp/seedcopy /tmp/seeddemo
