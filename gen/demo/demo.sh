#!/bin/bash
# Runs the demonstration test beside this file inside the repository in the current directory.
d=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf -- "$t"' EXIT
pkg=$(cat "$d/pkg.txt")
cp "$repo/go.mod" "$t/demo.mod"
[ -f /opt/vp/mk-lattigo.sum ] && cp /opt/vp/mk-lattigo.sum "$t/demo.sum"
{ echo '{"Replace":{'; s=''
  for f in "$d"/*_test.go; do echo "$s\"$repo/$pkg/zz_demo_$(basename "$f")\":\"$f\""; s=','; done
  echo '}}'; } > "$t/o.json"
GOFLAGS="-mod=mod -modfile=$t/demo.mod" timeout 280 go test -vet=off -count=1 -timeout 270s -overlay "$t/o.json" -run '^TestDemo$' "./$pkg"
