#!/bin/bash
# trybug.sh ID [--fast] [props...]: is seeded/ID a valid planted bug, and which checks see it?
# (applies the patch to /repo and undoes it)
ID=$1; shift; FAST=0; [ "${1:-}" = --fast ] && { FAST=1; shift; }
S=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 3; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
if [ $FAST = 0 ]; then bash $S/demo.sh > /tmp/try.clean 2>&1; echo "$ID: demo on the unchanged tree: $?"; fi
git -C /repo apply $S/patch.diff || { echo "$ID: does not apply"; exit 3; }
if [ $FAST = 0 ]; then
 bash /opt/vp/build.sh > /tmp/try.build 2>&1 || { echo "$ID: DOES NOT BUILD"; tail -20 /tmp/try.build; exit 1; }
 bash /opt/vp/test.sh /tmp/try.json > /tmp/try.test 2>&1
 python3 - <<P
import json
o=json.load(open('/tmp/try.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=b.get('stable') or b.get('passed') or b.get('stable_tests') or []
p=set(o.get('passed',[]))
print("$ID: stable tests missing:", [t for t in base if t not in p])
P
 bash $S/demo.sh > /tmp/try.bug 2>&1; echo "$ID: demo with the bug: $?"; tail -3 /tmp/try.bug
fi
cd /verif
for p in ${@:-$P}; do
 ./check $p > /tmp/try.$p 2>&1; rc=$?
 echo "$ID: check $p exit $rc: $(tail -1 /tmp/try.$p | cut -c1-150)"
 [ $rc = 1 ] && grep -a '=>\|FAILS' /tmp/try.$p | tail -1 | cut -c1-200
done
