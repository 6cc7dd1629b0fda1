#!/bin/bash
# trybug.sh ID [nocheck]: applies seeded/ID to /repo, confirms it builds, passes the stable tests and fails its demo, runs its check, and undoes it.
cd "$(dirname "$0")/.." || exit 1
id=$1; b=$PWD/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "repo dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != check ]; then
cd /repo; bash "$b/demo.sh" >/tmp/tb.demo 2>&1; echo "$id demo clean rc=$?"; tail -2 /tmp/tb.demo
fi
git -C /repo apply "$b/patch.diff" || { echo "$id DOES NOT APPLY"; exit 1; }
if [ "$2" != check ]; then
bash /opt/vp/build.sh >/tmp/tb.build 2>&1 || { echo "$id BUILD FAILS"; tail -30 /tmp/tb.build; exit 1; }
bash /opt/vp/test.sh /tmp/tb.json >/dev/null 2>&1
python3 - <<P
import json
o=json.load(open('/tmp/tb.json'));s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m=s-set(o['passed']); print("$id tests:", 'ok' if not m else 'BROKEN %s'%sorted(m)[:5])
P
cd /repo; bash "$b/demo.sh" >/tmp/tb.demo 2>&1; echo "$id demo patched rc=$?"; tail -2 /tmp/tb.demo
fi
[ "$2" = nocheck ] && exit 0
for q in ${CHECKS:-$p}; do
s=$(date +%s); /verif/check.sh $q >/tmp/tb.check 2>&1; rc=$?
echo "$id check $q rc=$rc $(( $(date +%s)-s ))s $(grep VIOLATION /tmp/tb.check|head -1)"; grep "^sim:.*viol\|^  \|class" /tmp/tb.check | head -3
done
