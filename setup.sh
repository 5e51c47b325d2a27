#!/bin/bash
# Builds the analysis engine from the committed sources (offline).
cd "$(dirname "$0")/engine" || exit 2
mkdir -p ../bin
export GOFLAGS=-mod=mod GOTOOLCHAIN=local GOCACHE="${GOCACHE:-/tmp/svc-gocache}"
if [ -x ../bin/svc ] && [ -z "$(find . -name '*.go' -newer ../bin/svc)" ] && [ ../bin/svc -nt go.mod ]; then exit 0; fi
go build -o ../bin/svc.$$ . && mv -f ../bin/svc.$$ ../bin/svc
