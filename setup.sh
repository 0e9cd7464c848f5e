#!/bin/bash
# Builds the tool once so that the Go build cache is warm; every check rebuilds it anyway.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
mkdir -p bin evidence
go build -o bin/vx ./cmd/vx && go vet ./engine/term >/dev/null && echo ok
