#!/bin/bash
# Warms the Go build cache: builds the harnesses once. Checks rebuild what they need themselves.
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.26.10/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOWORK=off CGO_ENABLED=0
for b in vh vhapi vhsrv; do
  [ -n "$(ls go/$b/*.go 2>/dev/null)" ] || continue
  S=$(mktemp -d /tmp/vsetup-XXXXXX) || exit 1
  ./build.sh /repo "$S" $b; rc=$?
  rm -rf "$S"
  [ $rc = 0 ] || exit $rc
done
exit 0
