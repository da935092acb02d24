#!/bin/bash
# build and run stable tests in $1 (default /repo)
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/tt.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
miss=[x for x in b['stable'] if x not in t['passed']]
print('stable',len(b['stable']),'missing',miss,'failed',t['failed'])
P
