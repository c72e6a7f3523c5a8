#!/bin/sh
# builds /repo and checks that every stable test still passes
bash /opt/vp/build.sh >/tmp/rt.log 2>&1 || { tail -20 /tmp/rt.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/rt.json'))
miss=set(b['stable'])-set(r['passed'])
print('stable',len(b['stable']),'missing',sorted(miss)); sys.exit(bool(miss))
P
