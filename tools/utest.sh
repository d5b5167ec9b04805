#!/bin/bash
# Development aid: rebuild /repo and report which of the baseline tests fail.
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -20 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1
python3 -c "
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('/tmp/t.json'));p=set(t['passed']);print(len(s),'stable; failing:',sorted(s-p)[:8])"
