#!/bin/bash
# bin/build.sh KIND... : builds the supervisor and the named worker binaries
# (plain, inst, race) from /repo's current working tree into /verif/build.
set -euo pipefail
here=$(cd "$(dirname "$0")/.." && pwd)
. "$here/bin/env.sh"
out=$here/build
mkdir -p "$out/overlay"
cd "$here/sim"
rm -f "$out/overlay/"* "$out/"*.bin
go build -o "$out/check.bin" ./cmd/check
go build -o "$out/instr.bin" ./cmd/instr
"$out/instr.bin" "$REPO" "$(go env GOROOT)" "$out/overlay" > "$out/instr.log"
for kind in "$@"; do
  case $kind in
    plain) go test -c -vet=off -overlay "$out/overlay/plain.json" -o "$out/plain.bin" . ;;
    inst)  go test -c -vet=off -overlay "$out/overlay/inst.json" -o "$out/inst.bin" . ;;
    race)  go test -c -vet=off -race -overlay "$out/overlay/inst.json" -o "$out/race.bin" . ;;
    *) echo "unknown kind $kind" >&2; exit 2 ;;
  esac
done
