#!/bin/bash
# usage: check.sh <property> [args for the check binary]
# Builds the check of one property against /repo's working tree and runs it.
set -u
id="$1"; shift
here="$(cd "$(dirname "$0")" && pwd)"
export VERIF_ROOT="$here"
export HOME="${HOME:-/root}"
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS=-mod=mod
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
lower="$(echo "$id" | tr 'A-Z' 'a-z')"
scratch="$(mktemp -d /tmp/verif-$lower-XXXXXX)" || exit 2
cleanup() { rm -rf "$scratch"; }
trap cleanup EXIT
trap 'exit 2' INT TERM
export VERIF_BUILD="$scratch"
export TMPDIR="$scratch"
if [ -x "$here/mc/cmd/$lower/prepare.sh" ]; then
  "$here/mc/cmd/$lower/prepare.sh" "$scratch" || { echo "prepare failed for $id" >&2; exit 2; }
fi
if [ -f "$scratch/build.args" ]; then extra="$(cat "$scratch/build.args")"; else extra=""; fi
# A private copy of go.mod keeps the committed one as it is.
cp "$here/mc/go.mod" "$scratch/go.mod"; cp "$here/mc/go.sum" "$scratch/go.sum"
( cd "$here/mc" && go build -modfile="$scratch/go.mod" $extra -o "$scratch/check" "./cmd/$lower" ) || { echo "build failed for $id" >&2; exit 2; }
if [ -f "$here/mc/cmd/$lower/needs-cli" ]; then
  ( cd /repo && cp go.mod "$scratch/cli.mod" && cp go.sum "$scratch/cli.sum" && go build -modfile="$scratch/cli.mod" -o "$scratch/addchain" ./cmd/addchain ) || { echo "cli build failed" >&2; exit 2; }
  export VERIF_CLI="$scratch/addchain"
fi
"$scratch/check" "$@"
rc=$?
exit $rc
