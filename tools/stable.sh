#!/bin/bash
# runs the repository's tests and compares with the stable baseline (development helper)
bash /opt/vp/test.sh /tmp/stable.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/stable.json'))
s=b.get('stable') or b.get('passed') or b
miss=[x for x in s if x not in r['passed']]
print('stable tests failing:',miss, 'of', len(s))
P
git -C /repo status --short
