#!/bin/bash
# Runs main.go, which lies beside this file, against the tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
export GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d/"
cp "$repo/go.sum" "$d/" 2>/dev/null
cat > "$d/go.mod" <<M
module demo

go 1.23

require (
	github.com/google/btree v1.1.2
	github.com/leftmike/maho v0.0.0
)

replace github.com/leftmike/maho => $repo
M
cd "$d" && timeout 200 go run .
