#!/bin/bash
# seed.sh ID: checks seeded/ID in a scratch copy: applies, builds, passes tests, demo ok/fails. Then runs its property's check on the copy.
V=/verif; id=$1; d=$V/seeded/$id; prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
s=$(mktemp -d /tmp/seedXXXXXX); cp -a /repo $s/repo; cp -a $d $s/d; cd $s/repo
bash $s/d/demo.sh >$s/o1 2>&1 || { echo "$id: demo fails on clean tree"; tail -5 $s/o1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
go build ./... || echo "$id: no build"
go test -json -vet=off -count=1 -timeout 10m ./... > $s/t.json
python3 - $s/t.json <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get('Action')=='pass' and 'Test' in e: ok.add(e['Package']+'/'+e['Test'])
m=st-ok
if m: print("FAILED TESTS",sorted(m)[:6])
P
timeout 300 bash $s/d/demo.sh >$s/o2 2>&1 && echo "$id: demo PASSES with the patch"
[ -n "$NOCHECK" ] || { mkdir -p $s/v/evidence; XPX_VERIF=$s/v XPX_REPO=$s/repo timeout 900 ${XC:-$V/build/xpxcheck} ${2:-$prop} quick >$s/o3 2>&1; rc=$?; echo "$id ($prop): exit $rc: $(grep -m1 -v '^VIOLATION' $s/o3 | cut -c1-230)"; }
rm -rf "$s"
