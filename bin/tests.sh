#!/bin/bash
# Development aid: rebuild /repo and compare the test suite with the baseline.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
miss=set(b['stable'])-set(t['passed'])
print("stable",len(b['stable']),"passed",len(t['passed']),"missing",sorted(miss))
PY
