#!/bin/bash
# Builds the verifier from the committed sources.
cd "$(dirname "$0")" || exit 2
unset GOFLAGS
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p build evidence
cd gover && go build -mod=vendor -o ../build/gover .
