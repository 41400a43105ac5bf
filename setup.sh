#!/bin/bash
# Warms the build caches (offline); every check rebuilds from /repo anyway.
set -e
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOENV=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
out=$(mktemp -d /tmp/gltfverif-setup-XXXXXX)
trap 'rm -rf "$out"' EXIT
cd "$here/harness"
cp go.mod "$out/go.mod"
go build -modfile="$out/go.mod" -o "$out/runner" .
CGO_ENABLED=1 go build -race -modfile="$out/go.mod" -o "$out/runner.race" .
"$out/runner" -list
