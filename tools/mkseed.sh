#!/bin/bash
# mkseed.sh ID PROP: makes seeded/ID from the diff of the scratch copy /tmp/sd (git), /tmp/sd_test.go and the texts in $NEEDS and $BREAKS
V=/verif; id=$1; d=$V/seeded/$id; mkdir -p $d
git -C /tmp/sd diff > $d/patch.diff
cp /tmp/sd_test.go $d/demo_test.go
cat > $d/demo.sh <<'D'
#!/bin/bash
# runs demo_test.go as an in-package test of the current directory (an overlay: nothing is written there)
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$d/demo_test.go\"}}" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestSeededDemo$' . ; rc=$?
unlink "$t/overlay.json"; rmdir "$t"
exit $rc
D
python3 - "$d" "$2" <<'P'
import json,os,sys
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
git -C /tmp/sd checkout -q -- .
