#!/bin/bash
# tryall.sh IDs...: combined build+tests+demos (patches together), then checks one by one
cd /tmp/rc; git diff --quiet || { echo dirty; exit 9; }
for id in "$@"; do git apply /verif/seeded/$id/patch.diff || { echo "apply $id failed"; git checkout -q -- .; exit 8; }; done
bash /tmp/vprc/build.sh > /tmp/ts.b 2>&1 || { echo "BUILD FAILED"; grep -m5 error /tmp/ts.b; }
for id in "$@"; do timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/ts.d 2>&1; echo "$id patched demo rc=$? $(grep -m2 failed /tmp/ts.d | tr '\n' ' ')"; done
[ -z "$NOTEST" ] && { bash /tmp/vprc/test.sh /tmp/ts.json > /tmp/ts.t 2>&1; tail -1 /tmp/ts.t; python3 -c "
import json;print('FAILED', json.load(open('/tmp/ts.json'))['failed'][:10])"; }
git checkout -q -- .
for id in "$@"; do d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cmd=$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p': print(c['quick_cmd'])")
git apply $d/patch.diff; if [ -n "$cmd" ]; then (cd /verif && EF_REPO=/tmp/rc timeout 900 $cmd > /tmp/ts.c 2>&1); echo "$id $p check rc=$? $(grep -m1 -E '^  ' /tmp/ts.c | cut -c1-160)"; else echo "$id $p NO CHECK"; fi; git checkout -q -- .; done
bash /tmp/vprc/build.sh > /tmp/ts.b 2>&1 
for id in "$@"; do timeout 300 bash /verif/seeded/$id/demo.sh > /tmp/ts.d 2>&1; echo "$id clean demo rc=$? $(grep -m2 failed /tmp/ts.d | tr '\n' ' ')"; done
