#!/bin/bash
# Warms the build: compiles the driver and the standard library parts the harnesses need.
cd "$(dirname "$0")" || exit 1
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS= GOWORK=off
(cd tools/vrun && go vet . >/dev/null 2>&1; go build -o /dev/null .) || exit 1
chmod +x check.sh
exit 0
