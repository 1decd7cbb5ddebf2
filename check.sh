#!/bin/sh
# usage: check.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
ROOT=$(pwd)
export GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=0 GOTOOLCHAIN=local GOCACHE="$ROOT/.cache/go"
unset GOOS GOARCH
mkdir -p .cache/bin evidence
(cd gover && go build -o "$ROOT/.cache/bin/gover" .) || exit 2
exec .cache/bin/gover check -root "$ROOT" -prop "$1" -tier "${2:-quick}"
