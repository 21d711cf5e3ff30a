#!/bin/bash
# Warms the Go build cache (plain and race-detector builds of the simulator).
cd "$(dirname "$0")" || exit 2
export HOME="${HOME:-/root}" GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p build evidence || exit 2
go build -o build/vsim ./cmd/vsim || exit 2
build/vsim build build/setup || exit 2
build/vsim build -race build/setup || exit 2
rm -rf build/setup
