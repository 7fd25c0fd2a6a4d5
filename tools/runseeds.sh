#!/bin/bash
# runseeds.sh [ID...]: apply each seeded change to /repo, run its property's quick check, undo it
cd /verif; [ $# -gt 0 ] || set -- $(ls seeded)
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  st=$(date +%s); out=$(bin/check $p ${TIER:-quick} 2>&1); rc=$?
  git -C /repo checkout -- .
  if [ $rc = 1 ] && grep -q "VIOLATION property=$p" <<<"$out"; then r=CAUGHT; else r="MISSED rc=$rc"; fi
  echo "$s $p $r $(( $(date +%s)-st ))s"
done
