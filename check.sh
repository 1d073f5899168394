#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the analyser and decides one property on /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GO111MODULE=on CGO_ENABLED=0
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
(cd "$here/tool" && go build -o "$tmp/mkv" .) || { echo "the analyser does not build"; exit 2; }
unset GOFLAGS
MKV_HOME=$here "$tmp/mkv" check "$1" "$2"
