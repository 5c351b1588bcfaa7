#!/bin/bash
# Compiles the simulator once so that the checks find warm build caches.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GOWORK=off
cd "$here/sim" && go build -o /dev/null ./cmd/vsim && go vet ./cmd/vsim
