#!/bin/bash
# Demonstration: runs demo_test.go (beside this file) inside package PKG of the repository in the current directory.
# Exit 0: the property holds for the demonstrated case; non-zero: it is broken.
pkg=PKG
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
cp "$repo/go.mod" "$tmp/x.mod"; cp "$repo/go.sum" "$tmp/x.sum"
printf '{"Replace": {"%s": "%s"}}\n' "$repo/$pkg/zz_seeded_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
export HOME=${HOME:-/root} TMPDIR=$tmp
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -modfile=$tmp/x.mod"
timeout -k 5 250 go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestSeededDemo$' "./$pkg"
