#!/bin/bash
# seedrun.sh ID...: apply each planted bug to /repo, build, run tests, demo and its property's check; undo it.
cd /verif || exit 1
for id in "$@"; do
  s=/verif/seeded/$id; p=$(python3 -c "import json,sys;print(json.load(open('$s/meta.json'))['property'])")
  git -C /repo apply $s/patch.diff || { echo "$id: patch does not apply"; continue; }
  t=ok
  for k in 1 2 3; do rm -f /repo/build/vp_stamp; bash /opt/vp/build.sh >/tmp/seedrun.log 2>&1 && break; done || t=nobuild
  bash /opt/vp/test.sh /tmp/seedrun.json >>/tmp/seedrun.log 2>&1
  m=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seedrun.json'))
st=set(b.get('stable') or b.get('passed') or b['tests']); pa=set(o.get('passed') or [k for k,v in o.items() if v=='passed'])
print(sorted(st-pa)[:5])
P
)
  (cd /repo && timeout 300 bash $s/demo.sh >/tmp/seedrun.demo 2>&1); d=$?
  a=$(date +%s); ./check $p >/tmp/seedrun.check 2>&1; c=$?; b=$(date +%s)
  git -C /repo checkout -- .
  echo "$id: build=$t missing=$m demo=$d check=$c $((b-a))s $(grep -m1 VIOLATION /tmp/seedrun.check)"
done
for k in 1 2 3 4 5; do rm -f /repo/build/vp_stamp; bash /opt/vp/build.sh >/tmp/seedrun.log 2>&1 && break; done
for id in "$@"; do (cd /repo && timeout 300 bash /verif/seeded/$id/demo.sh >/tmp/seedrun.demo 2>&1) || { echo "$id: demo fails on the unchanged tree"; tail -3 /tmp/seedrun.demo; }; done
git -C /repo status --short
