#!/bin/bash
# Instruments the packages under test and builds the race detector variant.
set -u
scratch="$1"
here="$(cd "$(dirname "$0")/../.." && pwd)"
mkdir -p "$scratch/overlay"
cp "$here/go.mod" "$scratch/prep.mod"; cp "$here/go.sum" "$scratch/prep.sum"
cd "$here" || exit 1
args=()
for d in /repo/alg/exec; do args+=("point:$d"); done
for d in /repo /repo/alg /repo/alg/*/ /repo/internal/bigint /repo/internal/bigints /repo/internal/bigvector; do
  d="${d%/}"
  case "$d" in /repo/alg/exec|/repo/alg/algtest) continue;; esac
  ls "$d"/*.go >/dev/null 2>&1 && args+=("step:$d")
done
if go run -modfile="$scratch/prep.mod" ./tools/instr "$scratch/overlay" "${args[@]}" &&
   go build -modfile="$scratch/prep.mod" -overlay="$scratch/overlay/overlay.json" -o /dev/null ./cmd/c12; then
  echo "-overlay=$scratch/overlay/overlay.json" > "$scratch/build.args"
else
  # The schedule points of the controlled algorithms remain.
  echo "instrumentation does not apply; exploring at the algorithms only" >&2
  : > "$scratch/build.args"
fi
CGO_ENABLED=1 go build -race -modfile="$scratch/prep.mod" $(cat "$scratch/build.args") -o "$scratch/race" ./cmd/c12 ||
  echo "race detector build failed; races are not explored" >&2
exit 0
