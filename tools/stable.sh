#!/bin/bash
# rebuilds /repo and runs its stable tests; prints what fails
bash /opt/vp/build.sh 2>&1 | grep -E "error|FAILED" | head; bash /opt/vp/test.sh /tmp/stable.json 2>&1 | tail -1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/stable.json')); print('failing:', [x for x in (b.get('stable') or b.get('passed')) if x not in set(t['passed'])][:8])
P
