#!/bin/bash
# run.sh <property> quick|thorough           run the monitors of a property against /repo
# run.sh <property> replay <family>:<index>  replay one case (VERIF_SEED, default 1)
set -u
here=$(cd "$(dirname "$0")" && pwd)
prop=${1:?property}; tier=${2:-${VERIF_TIER:-quick}}; only=${3:-}
seed=${VERIF_SEED:-1}
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOENV=off GOSUMDB=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
build=$(mktemp -d /tmp/gltfverif-build-XXXXXX) || exit 3
trap 'rm -rf "$build"' EXIT
chmod 755 "$build"
cd "$here/harness" || exit 3
sed "s#=> /repo#=> ${REPO:-/repo}#" go.mod > "$build/go.mod" || exit 3
go build -modfile="$build/go.mod" -o "$build/runner" . || { echo "BUILD-FAILED" >&2; exit 3; }
kind=$("$build/runner" -list | awk -v p="$prop" '$1==p{print $2}')
racebin=
if [ "$kind" = race ]; then
  CGO_ENABLED=1 go build -race -modfile="$build/go.mod" -o "$build/runner.race" . || { echo "BUILD-FAILED (race)" >&2; exit 3; }
  racebin=$build/runner.race
fi
cd "$here"
if [ "$tier" = replay ]; then
  bin=$build/runner
  [ "${REPLAY_RACE:-}" = 1 ] && bin=$racebin
  "$bin" -prop "$prop" -seed "$seed" -only "$only" -verif "$here" -repo "${REPO:-/repo}" -root "$build"
  exit $?
fi
"$build/runner" -prop "$prop" -tier "$tier" -seed "$seed" -racebin "$racebin" -verif "$here" -repo "${REPO:-/repo}"
exit $?
