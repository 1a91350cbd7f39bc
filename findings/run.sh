#!/bin/bash
# bash run.sh [REPO]: runs the demonstrations against a working tree (default /repo), through an overlay.
. /opt/vp/env.sh
repo=${1:-/repo}; here=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp)
python3 - "$repo" "$here" > $o <<'P'
import sys,json
r,h=sys.argv[1:]
print(json.dumps({"Replace":{f"{r}/{p}/{p}_findings_test.go":f"{h}/{p}_findings_test.go" for p in "transport serialization federation lease naming common".split()}}))
P
cd "$repo" && go test -short -vet=off -count=1 -timeout 120s -overlay "$o" -run 'TestF_' ./... ; rc=$?
rm -f "$o"; exit $rc
