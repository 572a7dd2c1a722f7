#!/bin/bash
# all planted bugs at once through the test-suite (each must be invisible to it)
for d in ${@:-/verif/seeded/*/}; do git -C /repo apply ${d%/}/patch.diff || echo "conflict $d"; done
bash /opt/vp/test.sh /tmp/tall.json > /tmp/tall.log 2>&1
git -C /repo checkout -q -- .
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/tall.json'))
print("lost tests:", sorted(set(b['stable'])-set(t['passed'])))
P
