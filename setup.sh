#!/bin/bash
# Builds the checker from the committed files. Offline.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off
go build -o bin/pkgrcheck ./cmd/pkgrcheck
