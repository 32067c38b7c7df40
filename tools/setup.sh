#!/bin/bash
# nothing to install: checks the toolchain and warms the Go build cache
set -e
cd "$(dirname "$0")/.."
command -v tlc >/dev/null && command -v go >/dev/null
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp -r driver "$d/driver"
cd "$d/driver"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build -o "$d/drv" .
go build -race -o "$d/drv_race" . || true
echo setup ok
