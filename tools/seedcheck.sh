#!/bin/bash
# tools/seedcheck.sh ID [notest]: confirm a planted bug in a scratch copy of /repo
. /opt/vp/env.sh
id=$1; s=/verif/seeded/$id; d=/tmp/seed-$id
rm -rf "/tmp/seed-$id"; cp -a /repo "$d" || exit 2
rm -rf "/tmp/seed-$id-demo"; mkdir -p "$d-demo"; cp "$s"/* "$d-demo/"; rm -f "$d-demo"/*.diff "$d-demo"/meta.json
cd "$d" || exit 2
(timeout 300 bash "$d-demo/demo.sh" >"$d-demo/clean.log" 2>&1); r0=$?
git apply "$s/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
go build ./... || { echo "$id: does not build"; exit 1; }
(timeout 300 bash "$d-demo/demo.sh" >"$d-demo/bug.log" 2>&1); r1=$?
echo "$id: demo clean=$r0 bug=$r1"
tail -5 "$d-demo/bug.log"
[ "$r0" = 0 ] || tail -20 "$d-demo/clean.log"
if [ "$2" != notest ]; then
  sed "s#/repo#$d#g; s#/opt/vp/reports#$d-reports#g" /opt/vp/test.sh >"$d-demo/test.sh"
  bash "$d-demo/test.sh" "$d-demo/out.json" >"$d-demo/test.log" 2>&1
  python3 - "$d-demo/out.json" "$d" <<'P'
import json,sys
base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open(sys.argv[1]))
def names(x):
    return x
st=base.get('stable') or base.get('passed') or base.get('tests')
ps=set(out.get('passed') or [k for k,v in out.get('tests',{}).items() if v=='passed'])
miss=[t for t in st if t not in ps]
print('stable tests not passing:',len(miss),miss[:8])
P
fi
rm -rf "/tmp/seed-$id" "/tmp/seed-$id-reports"
