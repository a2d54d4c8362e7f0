#!/bin/bash
# replay.sh FILE: runs a recorded violation again on /repo's working tree.
f=$(realpath "$1")
cd "$(dirname "$0")" || exit 2
out=$(tools/build.sh 2>&1) || { echo "$out"; echo "replay: the build failed"; exit 2; }
exec .build/sim replay "$f"
