#!/bin/bash
# usage: seed_try.sh ID...   tries planted changes against /repo (applied and undone): builds, tests, demo, check
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  (cd /repo && bash $d/demo.sh >/tmp/demo.out 2>&1); r0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/build.sh >/tmp/b.out 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
  t=$(python3 -c "import json;d=json.load(open('/tmp/o.json'));print(len(d['passed']),len(d['failed']))")
  (cd /repo && bash $d/demo.sh >/tmp/demo2.out 2>&1); r1=$?
  python3 vrun.py check $p >/tmp/c.out 2>&1; c=$?
  git -C /repo checkout -- .
  echo "$id property=$p demo_clean=$r0 build=$b tests=[$t] demo_patched=$r1 check=$c $(grep -h '^VIOLATION\|^key' /tmp/c.out | tr '\n' ' ')"
done
bash /opt/vp/build.sh >/dev/null 2>&1
