#!/bin/bash
# Builds the verifier from the committed sources, offline.
cd "$(dirname "$0")" || exit 1
export HOME="${HOME:-/root}" PATH="/opt/veriftools/go1.27.3/bin:$PATH"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor CGO_ENABLED=0
mkdir -p bin && cd engine && exec go build -o ../bin/gov .
