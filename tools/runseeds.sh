#!/bin/bash
# runseeds.sh [ID...]: applies each seeded change to /repo, runs the check of its property, undoes it
cd /verif
[ $# -eq 0 ] && set -- $(ls seeded)
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i does not apply"; continue; }
  out=$(timeout 900 python3 check.py $p 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "== $i rc=$rc"; echo "$out" | cut -c1-260 | tail -${N:-6}
done
