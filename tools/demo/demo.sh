#!/bin/bash
# Runs the demonstration test beside this file against /repo's tree.
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
cat > "$t/overlay.json" <<J
{"Replace": {"$PWD/pkg/port/iscsit/zz_client_test.go": "$d/client_test.go", "$PWD/pkg/port/iscsit/zz_demo_test.go": "$d/demo_test.go"}}
J
export DEMO_DIR=$t
go test -overlay "$t/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./pkg/port/iscsit
