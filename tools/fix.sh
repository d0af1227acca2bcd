#!/bin/bash
# tools/fix.sh "fix: message" -- build and test /repo, commit its tracked changes
cd /repo && bash /opt/vp/build.sh >/tmp/fixb.log 2>&1 || { tail -20 /tmp/fixb.log; exit 1; }
bash /opt/vp/test.sh /tmp/fixt.json >/tmp/fixt.log 2>&1
python3 - <<'P' || exit 1
import json;b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/fixt.json'))
s=b.get('stable') or b.get('passed') or b.get('stable_tests') or []
miss=set(s)-set(t['passed']);print('passed',len(t['passed']),'missing',miss);exit(1 if miss or not s else 0)
P
git commit -qam "$1" && git log --oneline | head -1
