#!/bin/bash
# Builds the analyser once, to fill the Go build cache; the checks build again from it.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GO111MODULE=on CGO_ENABLED=0
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp=$(mktemp -d) || exit 2
trap 'rm -rf -- "$tmp"' EXIT
cd "$here/tool" && go build -o "$tmp/mkv" .
