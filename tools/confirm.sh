#!/bin/bash
# confirm.sh ID...: in a scratch copy, a planted change applies, builds, keeps the
# stable tests passing, and its demonstration fails with it and passes without it.
V="$(cd "$(dirname "$0")/.." && pwd)"
. /opt/vp/env.sh
W=/tmp/confirm.$$
trap 'rm -rf "$W"' EXIT
for id in "$@"; do
  S="$V/seeded/$id"
  rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 1
  git checkout -q -- .
  bash "$S/demo.sh" >"$W/.demo0" 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 "$W/.demo0"; continue; }
  git apply "$S/patch.diff" || { echo "$id: does not apply"; continue; }
  go build ./... || { echo "$id: does not build"; continue; }
  bash "$S/demo.sh" >"$W/.demo1" 2>&1 && { echo "$id: demo passes with the change"; continue; }
  go test -json -vet=off -count=1 -timeout 10m ./... > "$W/.go.json" 2>/dev/null
  python3 - "$W/.go.json" <<'P' || { echo "$id: breaks stable tests"; continue; }
import json,sys
base=json.load(open('/opt/vp/BASELINE.json'))
names=set(base['stable'])
res={}
for l in open(sys.argv[1]):
    try:d=json.loads(l)
    except Exception: continue
    if d.get('Test') and d['Action'] in('pass','fail','skip'):
        res[(d['Package'],d['Test'])]=d['Action']
bad=[k for k,v in res.items() if v=='fail']
def match(k): 
    return k[0]+'/'+k[1] in names
bad=[k for k in bad if match(k)]
print(len([1 for v in res.values() if v=='pass']),'pass',len(bad),'fail',bad[:4])
sys.exit(1 if bad else 0)
P
  echo "$id: confirmed ($(grep -m1 -hE 'DEMO|demo_test.go:|panic:' "$W/.demo1" | cut -c1-120))"
done
