#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# check.sh build OUT                   only build the simulator binary
# check.sh warm                      only warm the build cache
# SIM_REPO overrides the tree (development only).
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}
. /opt/vp/env.sh
repo=${SIM_REPO:-/repo}
tmp=$(mktemp -d /tmp/gitdiffsim.XXXXXX) || exit 2
cleanup() { find "$tmp" -delete 2>/dev/null; }
trap cleanup EXIT
sed "s#=> .*#=> $repo#" "$here/sim/go.mod" >"$tmp/go.mod" || exit 2
note=instrumented
build() { (cd "$here/sim" && go build -modfile="$tmp/go.mod" "$@"); }
build -o "$tmp/instrument" ./cmd/instrument || { echo "check.sh: cannot build the instrumenter" >&2; exit 2; }
if ! { "$tmp/instrument" "$repo" "$tmp/ov" && build -overlay "$tmp/ov/overlay.json" -o "$tmp/simcheck" ./cmd/simcheck; } 2>"$tmp/err"; then
	note="plain (instrumented build failed: $(head -c 300 "$tmp/err" | tr '\n' ' '))"
	echo "check.sh: $note" >&2
	build -o "$tmp/simcheck" ./cmd/simcheck || { echo "check.sh: cannot build" >&2; exit 2; }
fi
# The race-detecting build: library and standard library are instrumented, the
# simulator is not (with size-specialised allocation the detector would miss
# allocations made by code that is not instrumented). It is an addition: without
# it the check still decides the property on schedules.
racing() {
	[ -d "$tmp/ov" ] && GOEXPERIMENT=nosizespecializedmalloc build -race -gcflags='gitdiffsim/...=-race=0' -gcflags='github.com/bluekeyes/go-gitdiff/...=-l' -overlay "$tmp/ov/overlay-race.json" -o "$tmp/simrace" ./cmd/simcheck 2>"$tmp/raceerr"
}
if [ "$prop" = warm ]; then
	racing
	exit 0 # the build cache is warm now
fi
if [ "$prop" = build ]; then
	cp "$tmp/simcheck" "${2:?output}"
	exit
fi
if [ "$prop" = replay ]; then
	file=${2:?file}
	if grep -q '"race_build": true' "$file"; then
		racing || { echo "check.sh: cannot build with the race detector" >&2; exit 2; }
		RACE_LOG=$tmp/race GORACE="log_path=$tmp/race exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0" "$tmp/simrace" replay "$file"
		exit
	fi
	"$tmp/simcheck" replay "$file"
	exit
fi
tier=${2:-${VERIF_TIER:-quick}}
race=()
if [ "$prop" = C11 ]; then
	if [ "$note" = instrumented ] && racing; then
		race=(-race-bin "$tmp/simrace")
	else
		note="$note; no race-detecting build: $(head -c 200 "$tmp/raceerr" 2>/dev/null | tr '\n' ' ')"
		echo "check.sh: $note" >&2
	fi
fi
"$tmp/simcheck" run -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -out "${SIM_OUT:-$here}" -tmp "$tmp" -note "$note" "${race[@]}" ${SIM_ARGS:-}
