#!/bin/bash
# Builds a variant of the tool whose executor and commands run under a
# schedule: instrumented in an overlay, main wrapped.
scratch="$1"
here="$(cd "$(dirname "$0")/../.." && pwd)"
mkdir -p "$scratch/overlay"
cp "$here/go.mod" "$scratch/sched.mod"; cat "$here/go.sum" /repo/go.sum > "$scratch/sched.sum"
sed -n '/^require/,/^)/p' /repo/go.mod >> "$scratch/sched.mod"
cd "$here" || exit 1
go run -modfile="$scratch/sched.mod" ./tools/instr "$scratch/overlay" point:/repo/alg/exec point:/repo/cmd/addchain &&
sed -i 's/^func main() *{/func verifMain() {/' "$scratch"/overlay/*_main.go &&
cat > "$scratch/overlay/wrap.go" <<'G' &&
package main

import "github.com/mmcloughlin/addchain/verifmc/vsched/cmdsched"

func main() { cmdsched.Run(verifMain) }
G
python3 - "$scratch" <<'P' &&
import json, sys
f = sys.argv[1] + "/overlay/overlay.json"
o = json.load(open(f))
o["Replace"]["/repo/cmd/addchain/zz_verif_wrap.go"] = sys.argv[1] + "/overlay/wrap.go"
json.dump(o, open(f, "w"))
P
go build -modfile="$scratch/sched.mod" -overlay="$scratch/overlay/overlay.json" -o "$scratch/sched" github.com/mmcloughlin/addchain/cmd/addchain ||
  echo "instrumentation does not apply; schedules are not explored" >&2
exit 0
