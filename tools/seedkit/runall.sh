#!/bin/bash
# runs every seed's property check (quick) on /repo with the seed applied; prints result and unconfirmed findings
cd /verif
for d in seeded/*/; do
  i=$(basename $d); [ $# -gt 0 ] && [[ " $* " != *" $i "* ]] && continue
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$i: patch does not apply"; continue; }
  o=$(python3 absint/main.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(echo "$o" | tail -1 | cut -c1-120)"
  echo "$o" | grep "^violation" | head -2 | cut -c1-160
done
