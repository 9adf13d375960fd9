#!/bin/bash
# trybug.sh <dir with patch.diff demo.sh> [check ids...]: build + tests + demo + checks with the patch applied to /repo, then undone
D=$(realpath "$1"); shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/build.sh > /tmp/tb.log 2>&1 || echo "BASE BUILD FAILED"
timeout 300 bash "$D/demo.sh" > /tmp/td0.log 2>&1; echo "demo on base: $?"
fi
git apply "$D/patch.diff" || { echo "patch does not apply"; exit 2; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/tt.json > /tmp/tb.log 2>&1
python3 -c "
import json; a=json.load(open('/tmp/tt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=b.get('stable') or b.get('passed') or b
m=[x for x in s if x not in a['passed']]
print('tests: passed',len(a['passed']),'stable missing',m[:5])"
timeout 300 bash "$D/demo.sh" > /tmp/td1.log 2>&1; echo "demo with bug: $?"
fi
for c in "$@"; do (cd /verif && timeout 900 python3-vt run.py $c quick > /tmp/tc_$c.log 2>&1; echo "check $c: exit $?"; grep VIOLATION /tmp/tc_$c.log | head -3); done
cd /repo && git checkout -q -- . && git status --porcelain
