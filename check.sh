#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the engine from /verif and decides the property for /repo's working tree.
# Exit 0: held on everything explored; exit 1 with a VIOLATION line: broken.
set -u
P=$1
TIER=${2:-${VERIF_TIER:-quick}}
V=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOWORK=off
unset GOROOT
if ! (cd "$V/engine" && PATH=/opt/veriftools/go1.27.3/bin:$PATH go build -o "$S/vjc" .) >"$S/log" 2>&1; then
  cat "$S/log"; echo "the engine does not build"; exit 2
fi
TMPDIR=$S timeout -k 5 890 "$S/vjc" -verif "$V" -repo /repo -prop "$P" -tier "$TIER"
exit $?
