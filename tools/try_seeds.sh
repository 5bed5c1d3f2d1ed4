#!/bin/bash
# Development aid: try_seeds.sh SEED[:Cnn] ... applies each planted bug to /repo, runs the check of its property (or the one named), undoes it.
cd /verif; O=$(mktemp)
for a in "$@"; do
  s=${a%%:*}; d=/verif/seeded/$s
  p=${a#*:}; [ "$p" = "$a" ] && p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$s does not apply"; continue; }
  t0=$SECONDS
  VERIF_SEED=1 VERIF_TIER=${TIER:-quick} ./check.sh $p >$O 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $((SECONDS-t0))s $(grep -m1 VIOLATION $O) | $(grep -v VIOLATION $O | tail -1 | cut -c1-200)"
done
rm -f "$O"
