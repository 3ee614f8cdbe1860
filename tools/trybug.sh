#!/bin/bash
# trybug.sh [-n] ID... : apply seeded/ID to /repo, build, test, demo, run the property's check, undo
NOCHECK=0; [ "$1" = -n ] && { NOCHECK=1; shift; }
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.log 2>&1
  t=$(python3 -c "
import json;a=json.load(open('/tmp/tb.json'));b=json.load(open('/opt/vp/BASELINE.json'))
pa=set(a['passed']) if isinstance(a['passed'],list) else a['passed'];print([x for x in b['stable'] if x not in pa][:4] if isinstance(pa,set) else pa)")
  (cd /repo && bash $d/demo.sh >/tmp/tb.demo 2>&1); dr=$?
  if [ $NOCHECK = 0 ]; then (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p >/tmp/tb.check 2>&1); cr=$?; fi
  git -C /repo checkout -q -- .
  echo "$id prop=$p failing-stable-tests=$t demo=$dr check=$cr $(grep -m1 VIOLATION /tmp/tb.check 2>/dev/null | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
for id in "$@"; do (cd /repo && bash $V/seeded/$id/demo.sh >/tmp/tb.demo 2>&1) || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/tb.demo; }; done
