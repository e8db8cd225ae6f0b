#!/bin/bash
cd "$(dirname "$0")/checker" || exit 1
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
mkdir -p bin && go build -o bin/vc .
