#!/bin/bash
# trybug.sh SEED...: applies each planted bug to /repo, runs its property's check, undoes it.
cd "$(dirname "$0")/.." || exit 2
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  out=$(timeout 900 ./run.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p " <<<"$out"; then
     echo "$s $p CAUGHT: $(grep -m1 'in exploration' <<<"$out" | cut -c1-160)"
  else echo "$s $p MISSED rc=$rc"; tail -5 <<<"$out"; fi
done
