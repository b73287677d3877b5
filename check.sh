#!/bin/bash
# usage: check.sh <property>...   Decides the properties from /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off VERIF_DIR="$here"
export GOCACHE="${GOCACHE:-${XDG_CACHE_HOME:-$HOME/.cache}/go-build}"
mkdir -p "$here/bin" "$here/evidence"
if ! (cd "$here/tool" && go build -o "$here/bin/vt.$$" . && mv "$here/bin/vt.$$" "$here/bin/vt"); then
  echo "the analyser does not build"
  exit 2
fi
exec "$here/bin/vt" check "$@"
