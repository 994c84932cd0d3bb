#!/bin/bash
# rebuilds /repo and compares its tests with the baseline
bash /opt/vp/build.sh > /tmp/repo_build.log 2>&1 || { tail -30 /tmp/repo_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/repo_out.json > /dev/null 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/repo_out.json'))
lost=b-set(o['passed']); print('lost', len(lost), sorted(lost)[:20], 'newly passing', len(set(o['passed'])-b))
P
