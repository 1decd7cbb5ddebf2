#!/bin/sh
# runs demo_test.go.txt (beside this file) inside the package, through an overlay
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$D" > "$T/ov.json"
export GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off GOTOOLCHAIN=local VD_SCRATCH="$T"
go test -vet=off -count=1 -timeout 250s -overlay "$T/ov.json" -run '^TestDemo' . > "$T/log" 2>&1
rc=$?
tail -n 20 "$T/log"
grep -q "^ok" "$T/log" || exit 1
exit $rc
