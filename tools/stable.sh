#!/bin/bash
# run the repository's stable tests against /repo
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/stable.json >/tmp/stable.log 2>&1
python3 - <<'Q'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/stable.json'))['passed'])
print('stable failing:', len(b-p), sorted(b-p)[:20])
Q
