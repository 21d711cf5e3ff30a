#!/bin/bash
# Runs the demonstration beside this script against the tree in the current
# directory: exit 0 if the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zz_demo_test.go": "%s/demo_test.go", "%s/zz_lib_test.go": "%s/lib_test.go"}}\n' "$PWD" "$here" "$PWD" "$here" > "$tmp/overlay.json"
export HOME="${HOME:-/root}" GOPROXY=off GOTOOLCHAIN=local
timeout 280 go test -overlay "$tmp/overlay.json" -count=1 -run '^TestDemo$' .
