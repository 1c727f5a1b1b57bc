#!/bin/bash
# tools/bug.sh ID [--no-tests]: confirm a planted bug (builds, passes the stable tests, demo 0 -> nonzero) and run its property's check against it.
exec 9>/tmp/bug.lock; flock 9
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
git diff --quiet || { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(bash $d/demo.sh >/tmp/demo0.log 2>&1); a=$?
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != --no-tests ]; then
 bash /opt/vp/build.sh >/tmp/bug-build.log 2>&1 || echo "BUILD FAILS"
 bash /opt/vp/test.sh /tmp/bug-test.json >/tmp/bug-test.log 2>&1
 python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/bug-test.json'))
want=b.get('passed') or b.get('stable') or b.get('tests')
bad=[t for t in want if t not in set(r['passed'])]
print("tests: %d of %d baseline tests fail" % (len(bad),len(want)), bad[:3])
P
fi
(bash $d/demo.sh >/tmp/demo1.log 2>&1); b=$?
echo "$id: demo clean=$a patched=$b"
cd /verif && timeout 900 python3 sa/check.py $prop --tier quick > /tmp/bug-check.log 2>&1; c=$?
echo "$id: check $prop exit=$c  $(grep -c ^VIOLATION /tmp/bug-check.log) violation(s)"; grep -A3 ^VIOLATION /tmp/bug-check.log | cut -c1-300 | head -5
