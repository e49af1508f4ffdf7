cd /verif
python3 - <<'P' | while read p c; do s=$(date +%s); ( timeout 900 $c > /tmp/ra_$p.log 2>&1; echo "$p rc=$? $(( $(date +%s)-s ))s $(tail -1 /tmp/ra_$p.log | cut -c1-200)" ); done
import json
for c in json.load(open('/verif/scripts/checks.json')): print(c['property'],c['cmd'])
P
