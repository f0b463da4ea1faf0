#!/bin/bash
# build.sh REPO SCRATCH BIN: builds the instrumented harness BIN (vh, vhapi or vhsrv)
# from the working tree REPO into SCRATCH. Nothing is written to REPO.
set -eu
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=$1; SCR=$2; BIN=$3
(cd "$VERIF/go/rewrite" && GOFLAGS= go build -o "$SCR/rewrite" .)
cp "$REPO/go.mod" "$SCR/m.mod"; cp "$REPO/go.sum" "$SCR/m.sum"
export GOFLAGS="-mod=mod -modfile=$SCR/m.mod"
PKGS=". ./blobstore ./blobstore/memstore ./blobstore/badgerstore ./backup"
EXTRA=""
if [ "$BIN" != vh ]; then
  PKGS="$PKGS ./api ./backup/reader ./backup/server ./backup/file ./backup/s3"
  EXTRA="-extra $VERIF/go/inapi=$REPO/api"
fi
if [ "$BIN" = vhsrv ]; then
  # The whole server with its (instrumented) shutdown management.
  EXTRA="$EXTRA -extra $VERIF/go/inapisrv=$REPO/api -vendor github.com/klauspost/shutdown2=vshutdown -extra $VERIF/go/inshutdown=$REPO/zz_verif/vshutdown -extra $VERIF/go/vhapi=$REPO/zz_verif/vhsrv"
fi
for d in vsched vsync vtime vctx vrand vzstd vnet vpipe vmem h $BIN; do EXTRA="$EXTRA -extra $VERIF/go/$d=$REPO/zz_verif/$d"; done
cd "$REPO"
"$SCR/rewrite" -dir "$REPO" -out "$SCR/src" -overlay "$SCR/ov.json" $EXTRA $PKGS
go build -overlay "$SCR/ov.json" -o "$SCR/$BIN" ./zz_verif/$BIN
