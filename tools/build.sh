#!/bin/bash
# Builds the simulator from /repo's working tree. Usage: build.sh OUTDIR
set -e
. /opt/vp/env.sh
V=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
OUT=${1:-$V/.build}
mkdir -p "$OUT"
(cd "$V/tools/instr" && GOFLAGS=-mod=mod go build -o "$OUT/instr" .)
cd "$REPO"
"$OUT/instr" -repo "$REPO" -sim "$V/sim" -out "$OUT"
go build -overlay "$OUT/overlay.json" -o "$OUT/sim" ./zsim/main
