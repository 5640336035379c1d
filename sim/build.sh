#!/bin/bash
# build.sh OUT [race]: builds the instrumented harness from /repo's working tree into OUT (a scratch directory);
# with race also OUT/harness-race, in which Go's race detector watches the code under test (and not the simulator).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"
repo="${REPO:-/repo}"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh >/dev/null 2>&1; fi
export GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p "$out"
(cd "$here/instr" && go build -o "$out/instr" .) || exit 2
for level in 0 1 2 3 4 5; do
	rm -rf "$out/ov"
	if "$out/instr" -repo "$repo" -sim "$here" -out "$out/ov" -level "$level" ${INSTR_FLAGS:-} >"$out/instr.log" 2>&1 &&
		(cd "$repo" && GOFLAGS=-mod=mod go build -tags "$(cat "$out/ov/tags")" -overlay "$out/ov/overlay.json" ${BUILD_FLAGS:-} -o "$out/harness" ./zzverifsim/harness) >"$out/build.log" 2>&1; then
		echo "$level" >"$out/level"
		if [ "${2:-}" = race ]; then
			(cd "$repo" && GOFLAGS=-mod=mod go build -race -gcflags='github.com/itstarsun/go-thrift/zzverifsim/...=-race=false' \
				-tags "$(cat "$out/ov/tags")" -overlay "$out/ov/overlay.json" ${BUILD_FLAGS:-} -o "$out/harness-race" ./zzverifsim/harness) >"$out/race.log" 2>&1
		fi
		exit 0
	fi
done
cat "$out/instr.log" "$out/build.log" >&2
exit 2
