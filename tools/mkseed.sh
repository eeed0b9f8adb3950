#!/bin/bash
# mkseed.sh ID PKG PROP NEEDS BREAKS: turns the edits of the scratch worktree /tmp/seedwt into /verif/seeded/ID (demo_test.go
# must already lie there), and confirms: builds, baseline tests pass, demo passes on clean /repo and fails with the patch.
. /opt/vp/env.sh
id=$1; pkg=$2; d=/verif/seeded/$id
cd /tmp/seedwt || exit 2
git diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no edits"; exit 2; }
cat > $d/demo.sh <<X
#!/bin/bash
# runs the demonstration as an in-package test of the code in the current directory
. /opt/vp/env.sh
d=\$(cd "\$(dirname "\$0")" && pwd)
tmp=\$(mktemp -d); trap 'rm -rf "\$tmp"' EXIT
printf '{"Replace":{"%s":"%s"}}' "\$PWD/$pkg/zz_demo_test.go" "\$d/demo_test.go" > "\$tmp/o.json"
go test -overlay "\$tmp/o.json" -vet=off -count=1 -run '^TestSeedDemo\$' ./$pkg
X
python3 - "$id" "$3" "$4" "$5" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
X
go build ./... || { echo "BUILD FAILS"; exit 1; }
go test -json -vet=off -count=1 -timeout 10m ./... > /tmp/seed.raw 2>/tmp/seed.err
sed -E '/"Test":"TestTimeProvider\/Test_[A-Za-z_]+_(0|102848302)"/!s/("Test":"TestTimeProvider\/Test_[A-Za-z_]+_)[0-9]+"/\1random"/' /tmp/seed.raw > /tmp/seed.log
python3 /opt/vp/results.py /tmp/seed.out gojson:/tmp/seed.log
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.out'))
def passed(x):
    return set(x.get('passed') or x.get('pass') or x.get('stable') or x)
print('keys',list(b)[:4],list(o)[:4])
miss=passed(b)-passed(o)
print("TESTS BROKEN:" if miss else "tests ok", sorted(miss)[:5])
X
(cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1) && echo "demo clean: ok" || { echo "DEMO FAILS ON CLEAN"; tail -20 /tmp/demo.out; }
(bash $d/demo.sh >/tmp/demo.out 2>&1) && echo "DEMO PASSES ON PATCHED" || { echo "demo patched: fails (good)"; grep -m3 "zz_demo\|demo_test\|panic" /tmp/demo.out; }
git checkout -q -- .
