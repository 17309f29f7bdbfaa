#!/bin/bash
# Usage: run.sh PROPERTY - decides a property for the current tree of /repo.
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$D"
mkdir -p "$D/bin" "$D/evidence"
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
( flock 9; cd "$D/checker" && GOFLAGS=-mod=mod go build -o ../bin/checker . ) 9>"$D/bin/.lock" || { echo "cannot build the checker" >&2; exit 2; }
exec "$D/bin/checker" check "$1"
