#!/bin/sh
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local GOCACHE="$ROOT/.cache/go"
mkdir -p .cache/bin evidence
(cd gover && go build -o "$ROOT/.cache/bin/gover" .) || exit 2
# warm the build cache for loading and testing /repo
(cd /repo && go test -c -vet=off -o /dev/null . >/dev/null 2>&1; go build -o /dev/null . >/dev/null 2>&1)
exit 0
