#!/bin/bash
# run the repository's own tests and compare with the baseline
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=sorted(set(b['stable'])-set(t['passed']))
print('stable', len(b['stable']), 'passed', len(t['passed']), 'missing', miss[:10])
P
