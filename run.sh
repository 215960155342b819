#!/bin/bash
# Runs one check: ./run.sh [-tier thorough] ID
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
if ! out=$(go build -o bin/pkgrcheck ./cmd/pkgrcheck 2>&1); then
  if [ ! -x bin/pkgrcheck ]; then echo "$out"; exit 2; fi
fi
exec ./bin/pkgrcheck -verif "$PWD" "$@"
