#!/bin/bash
# fix.sh "message": build and test /repo's working tree, commit as a fix when the baseline still passes
cd /repo || exit 1
bash /opt/vp/build.sh >/tmp/fixb.log 2>&1 || { tail -20 /tmp/fixb.log; exit 1; }
bash /opt/vp/test.sh /tmp/fixt.json >/tmp/fixt.log 2>&1
python3 - <<'P' || exit 1
import json,sys
t=json.load(open('/tmp/fixt.json')); b=json.load(open('/opt/vp/BASELINE.json'))
want=b.get('passed') or b.get('tests') or b.get('stable')
if isinstance(b,list): want=b
miss=[x for x in want if x not in t['passed']]
print('passed',len(t['passed']),'missing',miss)
sys.exit(1 if miss else 0)
P
git commit -qam "fix: $1" && git log --oneline | head -1
