#!/bin/bash
# builds the engine and warms the build cache
cd "$(dirname "$0")" || exit 1
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GONOSUMDB='*' GO111MODULE=on GOWORK=off
mkdir -p bin evidence
cd engine && go build -o ../bin/symgo .
