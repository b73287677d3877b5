#!/bin/bash
# builds the analyser from the committed files (vendored dependencies, offline)
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off
mkdir -p "$here/bin" "$here/evidence"
cd "$here/tool" && go build -o "$here/bin/vt" .
