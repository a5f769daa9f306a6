#!/bin/bash
# Builds the checker, offline, from the committed files.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p bin evidence
cd checker && go build -o ../bin/checker .
