#!/bin/bash
# Run the repository's tests in /repo and list stable tests that no longer pass.
bash /opt/vp/test.sh /tmp/stable_out.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/stable_out.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(o['passed']); miss=[t for t in b['stable'] if t not in p]
print(len(p),"passed; stable tests missing:",miss)
P
