#!/bin/bash
# check.sh <PROPERTY> [quick|thorough] [extra harness args]
# Rebuilds the instrumented harness from /repo's current working tree in a
# scratch directory and runs one property check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=${VERIF_REPO:-/repo}
ID=${1:?usage: check.sh PROPERTY [quick|thorough]}
TIER=${2:-quick}
shift; shift || true
SCR=$(mktemp -d /tmp/vcheck-XXXXXX) || exit 2
trap 'cd /; rm -rf "$SCR"' EXIT
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOWORK=off CGO_ENABLED=${CGO_ENABLED:-0}
BIN=$(grep -E "^$ID " "$VERIF/checks.txt" | awk '{print $2}')
if [ -z "$BIN" ]; then echo "unknown property $ID" >&2; exit 2; fi
"$VERIF/build.sh" "$REPO" "$SCR" "$BIN" || { echo "CHECK-ERROR: building the harness failed" >&2; exit 2; }
mkdir -p "$SCR/tmp"
TMPDIR="$SCR/tmp" "$SCR/$BIN" -verif "$VERIF" -prop "$ID" -tier "$TIER" "$@"
exit $?
