#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the checker if needed and decides one property on /repo's current working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
. ./env.sh
BIN=$V/bin/checker
if [ ! -x "$BIN" ] || [ -n "$(find checker -newer "$BIN" -name '*.go' -print -quit)" ]; then
  mkdir -p bin && (cd checker && GOFLAGS=-mod=vendor go build -o "$BIN.$$" .) && mv "$BIN.$$" "$BIN" || exit 2
fi
T=${2:-${VERIF_TIER:-quick}}
A=""
[ "$T" = thorough ] && A=",386"
exec "$BIN" -repo "${REPO:-/repo}" -verif "$V" -property "$1" -tier "$T" ${A:+-arch "$A"}
