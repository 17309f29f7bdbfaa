#!/bin/bash
# Builds the checker from the committed sources, offline.
set -e
cd "$(dirname "$0")/checker"
mkdir -p ../bin ../evidence
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o ../bin/checker .
# warm the build cache that type-checking the program uses
../bin/checker check C25 >/dev/null || true
