#!/bin/bash
# seedcheck.sh ID...: confirms each planted change (builds, tests pass, demo fails with it) and runs its property's check
for i in "$@"; do
  d=/verif/seeded/$i
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
  git -C /repo apply $d/patch.diff || { echo "$i: does not apply"; continue; }
  if [ -z "$CHECK_ONLY" ]; then
    bash /opt/vp/build.sh > /tmp/sc.log 2>&1 && b=ok || b=FAIL
    bash /opt/vp/test.sh /tmp/sc.json > /dev/null 2>&1
    t=$(python3 -c "
import json;d=json.load(open('/tmp/sc.json'));s=json.load(open('/opt/vp/BASELINE.json'))['stable'];print('ok' if set(s)<=set(d['passed']) else 'FAIL')")
    (cd /repo && bash $d/demo.sh > /tmp/sc.demo 2>&1); r=$?
  fi
  python3-vt /verif/symx/py/check.py $p --tier quick > /tmp/sc.check 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$i ($p): build $b tests $t demo $r check $c $(grep -c ^VIOLATION /tmp/sc.check) violations; $(grep -v '^VIOLATION\|^KNOWN' /tmp/sc.check | head -1 | cut -c1-200)"
done
