#!/bin/bash
# regress.sh: rebuild /repo (or REPO) and compare with the baseline of stable tests
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
s=set(b['stable']);p=set(o['passed'])
print('stable',len(s),'missing',sorted(s-p)[:20])
P
