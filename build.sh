#!/bin/bash
# Builds the checker from /repo's current working tree into /verif/.build.
# usage: build.sh [race]
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
export HOME="${HOME:-/root}"
export PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
out="${VERIF_BUILD:-$here/.build}"
mkdir -p "$out"
( cd "$here/tools/overlaygen" && GOFLAGS= go build -o "$out/overlaygen" . )
"$out/overlaygen" "$repo" "$here/harness" "$out"
cp "$repo/go.mod" "$out/go.mod"
cp "$repo/go.sum" "$out/go.sum"
cd "$repo"
go build -overlay "$out/overlay.json" -modfile "$out/go.mod" -o "$out/mcrun" ./zz_verif/cmd/mcrun
if [ "$1" = race ]; then
  go build -race -overlay "$out/overlay.json" -modfile "$out/go.mod" -o "$out/mcrun-race" ./zz_verif/cmd/mcrun
fi
