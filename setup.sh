#!/bin/sh
# Builds the engine and warms the build cache. Offline.
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off CGO_ENABLED=0
mkdir -p build evidence
(cd engine && go build -o ../build/engine .) || exit 1
