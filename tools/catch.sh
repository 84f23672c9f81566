#!/bin/bash
# catch.sh ID...: apply each planted bug to /repo, run its property's quick check, undo.
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || continue
  s=$(date +%s); VERIF_TIER=quick VERIF_SEED=1 bash /verif/checks/run.sh $p quick >/tmp/catch.$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/catch.$id.log)"
done
