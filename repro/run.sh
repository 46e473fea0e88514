#!/bin/bash
# Runs the defect reproductions against /repo's working tree (not a check; evidence for the "fixed:" entries).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
ov=$(mktemp)
echo "{\"Replace\":{\"/repo/engine/repro_verif_test.go\":\"$here/engine/repro_verif_test.go\",\"/repo/repro_verif_test.go\":\"$here/socketio/repro_verif_test.go\"}}" > "$ov"
cd /repo && go test -vet=off -count=1 -timeout 120s -overlay "$ov" -run "${1:-Repro}" ${2:+$2} ./...
rc=$?; rm -f "$ov"; exit $rc
