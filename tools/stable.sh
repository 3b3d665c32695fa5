#!/bin/bash
# rebuild, run the repository's tests, report stable tests that do not pass
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=set(b['stable']) if 'stable' in b else set(b['passed'])
p=o.get('passed') or [k for k,v in o.get('tests',{}).items() if v=='passed']
m=st-set(p)
print('stable failing:', sorted(m)[:20] if m else 'none')
P
