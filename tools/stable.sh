#!/bin/bash
# Runs the repository's tests and says whether every stable one passes (development aid).
bash /opt/vp/test.sh /tmp/stable-out.json | tail -1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open('/tmp/stable-out.json'))['passed'])
print("missing:", sorted(b-t), "new:", sorted(t-b))
P
