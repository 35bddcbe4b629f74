#!/bin/bash
# Usage: check.sh PROPERTY [quick|thorough]
# Builds the analyzer from the committed sources and applies it to the current source of /repo.
cd "$(dirname "$0")" || exit 1
export VERIF_DIR=$PWD
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOSUMDB=off GOPROXY=off GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
bin=$VERIF_DIR/.bin
mkdir -p "$bin" "$VERIF_DIR/evidence"
if ! out=$(cd analyzer && GOFLAGS=-mod=mod go build -o "$bin/mocoverif.$$" . 2>&1); then
  echo "the analyzer does not build: $out" >&2
  exit 2
fi
mv -f "$bin/mocoverif.$$" "$bin/mocoverif"
[ "$1" = "--setup" ] && exit 0
ids=$1
tier=${2:-${VERIF_TIER:-quick}}
unset GOFLAGS
exec "$bin/mocoverif" check $ids --tier "$tier"
