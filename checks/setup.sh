#!/bin/bash
# Builds the engine once, so that a broken toolchain shows here.
set -eu
here=$(cd "$(dirname "$0")/.." && pwd)
. /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d /tmp/gmsym-setup.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cd "$here/engine" && go build -o "$tmp/gmsym" .
cd "$here/harness" && go vet ./sym ./ref >/dev/null
echo ok
