#!/bin/sh
# Builds the symbolic executor from the committed sources, offline.
set -e
cd "$(dirname "$0")"
export GOFLAGS='-mod=mod -buildvcs=false' GOPROXY=off GOTOOLCHAIN=local GONOSUMDB='*'
mkdir -p bin evidence
cd gosym
go build -o ../bin/gosym ./cmd/gosym
