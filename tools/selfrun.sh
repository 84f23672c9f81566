#!/bin/bash
# Development aid: run harnesses natively on random inputs of the unchanged tree (also on small curves);
# a failure here is a mistake in a harness. usage: selfrun.sh PREFIX SECS
. /opt/vp/env.sh
cd /verif/harness && GOFLAGS=-mod=mod go build -o /tmp/replay_self ./replay || exit 1
for h in $(grep -oE '"(C[0-9]+_[A-Za-z0-9]+)"' h/registry.go | tr -d '"' | grep "^$1"); do
	for n in 1 2 3; do
		echo "{\"harness\":\"$h\"}" > /tmp/self_$h_$n.json
		echo "$h $(timeout 300 /tmp/replay_self /tmp/self_$h_$n.json -search "$2" | cut -c1-600)"
		rm -f /tmp/self_$h_$n.json
	done | sort -u
done
