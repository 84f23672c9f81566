#!/bin/bash
# seed.sh ID...: confirm planted bugs of /verif/seeded in a scratch copy:
# applies, builds, stable tests pass, demo 0 without and nonzero with it.
. /opt/vp/env.sh
for id in "$@"; do
  S=/verif/seeded/$id; W=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo "$W/repo"; cd "$W/repo" || exit 1
  bash "$S/demo.sh" >"$W/d0" 2>&1; d0=$?
  git apply "$S/patch.diff" || echo "$id: DOES NOT APPLY"
  go build ./... || echo "$id: NO BUILD"
  go vet ./sm2 >/dev/null 2>&1
  go test ./... >"$W/t" 2>&1; t=$?
  bash "$S/demo.sh" >"$W/d1" 2>&1; d1=$?
  echo "$id demo-clean=$d0 tests=$t demo-patched=$d1"
  [ $d0 = 0 ] || tail -5 "$W/d0"; [ $t = 0 ] || grep -m5 -e FAIL -e panic "$W/t"
  cd /; rm -rf "$W"
done
