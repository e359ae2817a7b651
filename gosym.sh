#!/bin/bash
# Builds the engine from /verif/engine if needed and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off GONOSUMDB='*'
bin="$PWD/.build/gosym"
if [ ! -x "$bin" ] || [ -n "$(find engine -newer "$bin" -print -quit)" ]; then
  mkdir -p .build
  (cd engine && go build -o "$bin.$$" . && mv -f "$bin.$$" "$bin") || exit 2
fi
[ "$1" = build ] && exit 0
exec "$bin" "$@"
