#!/bin/bash
# build + test /repo and compare with the baseline of stable tests
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || echo build failed
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=set(b['stable'])-set(o['passed']); print('stable tests missing:', sorted(m), 'passed', len(o['passed']))
P
