#!/bin/bash
# bash tools/suite.sh : run the stable tests on /repo's working tree
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
/usr/bin/python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open('/tmp/o.json'))['passed'])
print('all stable pass' if b<=o else 'BROKEN '+str(sorted(b-o)[:6]))"
git -C /repo status --short
