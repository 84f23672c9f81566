#!/bin/bash
# run.sh <property id> <quick|thorough>: builds the engine, encodes /repo's current source, decides the property.
set -u
id=$1 tier=${2:-quick}
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
[ -w "${GOCACHE:-/root/.cache/go-build}" ] || export GOCACHE=/tmp/gmsym-gocache
tmp=$(mktemp -d /tmp/gmsym-run.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/engine" && go build -o "$tmp/gmsym" .) || exit 2
mkdir -p "$here/evidence"
cd "$here/harness" || exit 2
"$tmp/gmsym" -id "$id" -tier "$tier" -evidence "$here/evidence/$id.json"
