#!/bin/bash
# Fills the build cache; the checks rebuild from /repo's working tree themselves.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
cd "$here/harness" && go build -o /dev/null ./cmd/core ./cmd/store ./cmd/engine && go build -race -o /dev/null ./cmd/engine ./cmd/net
