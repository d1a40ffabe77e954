#!/bin/bash
# Build the checker.
cd "$(dirname "$0")/engine" || exit 2
export PATH=$PATH:/usr/local/go/bin HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
mkdir -p ../bin
go build -o ../bin/gosym .
