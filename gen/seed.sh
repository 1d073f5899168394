#!/bin/bash
# development aid: confirm seeded bug $1 (dir under /verif/seeded): applies, builds, demo passes without and fails with, stable tests pass
v=$(cd "$(dirname "$0")/.." && pwd); id=$1; s=$v/seeded/$id; w=$(mktemp -d /tmp/seed.XXXX)
cp -a /repo $w/repo
pkg=$(cat $s/pkg.txt); cp $v/gen/demo/demo.sh $s/demo.sh; [ -f $v/gen/demo/${pkg}_lib_test.go ] && cp $v/gen/demo/${pkg}_lib_test.go $s/lib_test.go
run() { (cd $w/repo && bash $s/demo.sh > $w/demo.$1.log 2>&1; echo $?); }
a=$(run clean)
git -C $w/repo apply $s/patch.diff || { echo "$id: patch does not apply"; rm -rf $w; exit 1; }
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off
cp /opt/vp/mk-lattigo.mod $w/m.mod; cp /opt/vp/mk-lattigo.sum $w/m.sum
(cd $w/repo && GOFLAGS="-mod=mod -modfile=$w/m.mod" go build ./... ) || { echo "$id: build fails"; rm -rf $w; exit 1; }
b=$(run bug)
t=skipped
if [ "$2" != notest ]; then
 (cd $w/repo && GOFLAGS="-mod=mod -modfile=$w/m.mod" go test -json -vet=off -count=1 -timeout 15m -p 1 ./mkrlwe ./mkckks ./mkbfv > $w/t.json 2>&1)
 t=$(python3 - $w/t.json <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('stable','passed','passing','tests'):
            if k in x: return names(x[k])
        return list(x)
    return [y if isinstance(y,str) else y.get('name') or y.get('id') for y in x]
want=set(names(b))
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Test') and e['Action'] in('pass','fail','skip'): res[e['Package']+'::'+e['Test']]=e['Action']
ok=sum(1 for v in res.values() if v=='pass'); bad=[k for k,v in res.items() if v!='pass']
print('pass=%d bad=%s'%(ok,bad[:3]))
PY
)
fi
echo "$id: demo clean=$a bug=$b tests: $t"; [ "$a" != 0 ] && tail -5 $w/demo.clean.log; [ "$b" = 0 ] && tail -3 $w/demo.bug.log
[ "$b" != 0 ] && grep -v "^FAIL\|^---\|^ok" $w/demo.bug.log | head -4 | cut -c1-200
rm -rf $w
