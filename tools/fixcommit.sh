#!/bin/bash
# fixcommit.sh "<message>": test suite must pass, then commit /repo's working tree as a fix
set -e
bash /opt/vp/build.sh > /tmp/fix.build.log 2>&1 || { tail -30 /tmp/fix.build.log; exit 1; }
bash /opt/vp/test.sh /tmp/fix.json > /tmp/fix.log 2>&1 || { tail -30 /tmp/fix.log; exit 1; }
python3 - <<'P'
import json,sys
a=json.load(open('/tmp/fix.json'));b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(map(str,b['stable']))-set(map(str,a['passed']))
print(len(a['passed']),'passed', 'missing', list(miss)[:5]); sys.exit(1 if miss else 0)
P
cd /repo && git add -A src && git commit -q -m "fix: $1" && git log --oneline | head -1
