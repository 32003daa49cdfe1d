#!/bin/bash
# Builds /repo, runs its tests and lists the stable tests that do not pass.
for i in 1 2 3 4; do rm -f /repo/build/vp_stamp; bash /opt/vp/build.sh >/tmp/vb.log 2>&1 && break; [ $i = 4 ] && { echo BUILD FAILED; tail -5 /tmp/vb.log; exit 1; }; done
bash /opt/vp/test.sh /tmp/vo.json >/tmp/vt.log 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/vo.json')); b=json.load(open('/opt/vp/BASELINE.json'))
bad=[t for t in b['stable'] if t not in o['passed']]
print("passed",len(o['passed']),"stable",len(b['stable']),"missing",bad)
P
