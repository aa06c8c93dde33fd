#!/bin/bash
# runs the repository's tests and compares with the stable list
bash /opt/vp/test.sh /tmp/rtest.json >/tmp/rtest.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/rtest.json'))
print("passed",len(o['passed']),"failed",o['failed'],"missing stable",set(b['stable'])-set(o['passed']))
PY
