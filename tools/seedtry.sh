#!/bin/bash
# seedtry.sh ID...: does each seeded change build, pass the tests, fail its demo and get caught
B=/opt/vp
cd /repo; bash $B/build.sh > /tmp/sd/build.out 2>&1
for i in "$@"; do bash /verif/seeded/$i/demo.sh > /tmp/sd/base.$i 2>&1; echo $? > /tmp/sd/rc.$i; done
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git apply $d/patch.diff || { echo "$i does not apply"; continue; }
  c=-; [ -n "$NOCHECK" ] || { (cd /verif; timeout 890 python3-vt vpv/check.py $p) > /tmp/sd/chk.$i 2>&1; c=$?; }
  m=; bash $B/build.sh > /tmp/sd/build.out 2>&1 || m=BUILDFAIL
  bash $d/demo.sh > /tmp/sd/demo.$i 2>&1; r=$?
  [ -n "$NOTEST" ] || { bash $B/test.sh /tmp/sd/res.json > /tmp/sd/test.out 2>&1
  m="$m $(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sd/res.json'))
p=set(r['passed']); print('broken', [x for x in b['stable'] if x not in p][:4])")"; }
  git checkout -q -- .
  echo "$i base $(cat /tmp/sd/rc.$i) patched $r check $c $m | $(grep VIOLATION /tmp/sd/chk.$i 2>/dev/null | cut -c1-150)"
done
bash $B/build.sh > /tmp/sd/build.out 2>&1
