#!/bin/bash
# tryseed.sh ID [notest]: apply, build, (test), demo, own check; revert
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo dirty; exit 9; }
git apply $d/patch.diff || exit 8
bash /opt/vp/build.sh > /tmp/ts.b 2>&1 || { echo "$id BUILD FAILED"; grep -m3 error /tmp/ts.b; }
bash $d/demo.sh > /tmp/ts.d 2>&1; drc=$?
t=skip; if [ -z "$2" ]; then bash /opt/vp/test.sh /tmp/ts.json > /tmp/ts.t 2>&1; t=$(tail -1 /tmp/ts.t); fi
cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p': print(c['quick_cmd'])")
c="no check"; if [ -n "$cmd" ]; then (cd /verif && timeout 900 $cmd > /tmp/ts.c 2>&1); c="check rc=$?"; fi
git checkout -q -- .
echo "== $id $p demo rc=$drc tests: $t $c"; head -3 /tmp/ts.d; [ -n "$cmd" ] && grep -E "^  |VIOL|BROKEN|Error" /tmp/ts.c | head -4 | cut -c1-250
