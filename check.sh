#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator from /repo's working
# tree and searches for a violation of the property.
cd "$(dirname "$0")" || exit 2
out=$(tools/build.sh 2>&1) || { echo "$out"; echo "check: the build failed"; exit 2; }
exec .build/sim check "$1" "${2:-quick}"
