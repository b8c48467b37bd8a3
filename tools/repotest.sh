#!/bin/bash
bash /opt/vp/test.sh /tmp/repotest.json >/tmp/repotest.log 2>&1
python3 -c "
import json
d=json.load(open('/tmp/repotest.json')); b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m=b-set(d['passed']); print('stable missing:',sorted(m)); raise SystemExit(bool(m))"
