#!/bin/bash
# scatch.sh ID...: like catch.sh, on scratch copies of the repository and the harnesses (needs /tmp/gmsym).
. /opt/vp/env.sh
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/sc.XXXXXX); cp -a /repo $w/repo; cp -a /verif/harness $w/harness
  git -C $w/repo apply /verif/seeded/$id/patch.diff || continue
  sed -i "s#=> /repo#=> $w/repo#" $w/harness/go.mod
  s=$(date +%s); (cd $w/harness; timeout 880 /tmp/gmsym -dir $w/harness -id $p >/tmp/sc/$id.log 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 violated: /tmp/sc/$id.log | cut -c1-120)"
  rm -rf "$w"
done
