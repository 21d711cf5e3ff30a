#!/bin/bash
# Runs the check of one property: bash check.sh C01
# Everything is rebuilt from /repo's working tree, offline.
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p build || exit 2
bin=build/vsim.$$
go build -o "$bin" ./cmd/vsim || exit 2
"$bin" check -property "$1"
rc=$?
rm -f "$bin"
exit $rc
