#!/bin/bash
# check.sh build | check.sh <property> [quick|thorough] [flags of the engine]
set -u
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/bin" "$here/evidence"
build() (
  cd "$here/engine" || exit 2
  export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off
  # several checks may start at once
  out="$here/bin/.symgo.$$"
  go build -o "$out" . && mv -f "$out" "$here/bin/symgo"
)
build || { echo "cannot build the engine" >&2; exit 2; }
[ "${1:-}" = build ] && exit 0
prop="$1"; tier="${2:-quick}"; shift; shift 2>/dev/null || true
exec "$here/bin/symgo" -verif "$here" -repo /repo -prop "$prop" -tier "$tier" "$@"
