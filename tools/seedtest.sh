#!/bin/bash
# build + stable tests of the scratch copy /tmp/seed
sed 's#cd /repo#cd /tmp/seed#; s#/repo/#/tmp/seed/#g' /opt/vp/test.sh > /tmp/seedtest_run.sh
(cd /tmp/seed && . /opt/vp/env.sh >/dev/null 2>&1 && go build ./... ) || echo "DOES NOT BUILD"
bash /tmp/seedtest_run.sh /tmp/seedtest.json >/tmp/seedtest.err 2>&1
git -C /tmp/seed checkout -q go.sum
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=json.load(open('/tmp/seedtest.json'))
p=set(o['passed'])
print("stable tests missing:",[x for x in b if x not in p][:10], "passed", len(p))
P
