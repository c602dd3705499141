#!/bin/sh
# run.sh check ID TIER: builds the engine (if need be) and runs one check.
cd "$(dirname "$0")" || exit 3
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=0
mkdir -p build evidence
(cd engine && go build -o ../build/engine .) || exit 3
exec ./build/engine "$@"
