#!/bin/bash
# Runs demo_test.go against the package in the current directory's tree.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'find "$tmp" -delete' EXIT
sed 's/^package .*/package gitdiff_test/' "$here/demo_test.go.txt" >"$tmp/zz_demo_test.go" || exit 3
printf '{"Replace":{"%s/gitdiff/zz_demo_test.go":"%s/zz_demo_test.go"}}' "$PWD" "$tmp" >"$tmp/overlay.json"
timeout 200 go test -overlay "$tmp/overlay.json" -run '^TestDemo$' -count=1 RACEFLAG ./gitdiff
