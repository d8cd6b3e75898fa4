#!/bin/bash
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || echo BUILD FAIL
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1; tail -1 /tmp/test.log
python3 - <<'E'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/o.json'))
p=o.get('passed') or [k for k,v in o.items() if v=='passed']
miss=b-set(p); print('stable missing:',len(miss), sorted(miss)[:5])
E
