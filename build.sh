#!/bin/bash
# Builds the symbolic execution engine into /verif/bin/symgo.
set -e
cd "$(dirname "$0")/engine"
export GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOTOOLCHAIN=local
mkdir -p ../bin
go build -o ../bin/symgo .
