#!/bin/bash
# Builds every check once (offline); checks rebuild from /repo themselves.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
t="$(mktemp -d /tmp/verif-setup-XXXXXX)" || exit 1
trap 'rm -rf "$t"' EXIT
cp "$here/mc/go.mod" "$here/mc/go.sum" "$t/"
cd "$here/mc" && go build -modfile="$t/go.mod" ./... 
