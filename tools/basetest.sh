#!/bin/bash
# Run the repository's tests and compare with the stable baseline.
bash /opt/vp/test.sh /tmp/_o.json >/tmp/_o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/_o.json'))
bad=[t for t in b['stable'] if t not in set(o['passed'])]
print("stable",len(b['stable']),"missing",len(bad),bad[:10])
P
