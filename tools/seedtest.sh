#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in /repo: patch applies, builds, suite passes, demo 0/nonzero, check catches it. Leaves /repo clean.
cd /verif
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
  (cd /repo && bash "$d/demo.sh" >/tmp/w/demo0.log 2>&1); c=$?
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/w/seedbuild.log 2>&1; then
    (cd /repo && bash "$d/demo.sh" >/tmp/w/demo1.log 2>&1); b=$?
    if [ -n "$SUITE" ]; then bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1; s=$(python3 /tmp/w/cmp.py); else s=skipped; fi
    ./check.sh "$p" quick >/tmp/w/seedcheck_$id.log 2>&1; r=$?
    echo "$id [$p] demo clean=$c bug=$b suite=[$s] check=$r $(grep -c VIOLATION /tmp/w/seedcheck_$id.log) $(grep -m1 VIOLATION /tmp/w/seedcheck_$id.log)"
  else echo "$id: build fails"; cat /tmp/w/seedbuild.log; fi
  git -C /repo checkout -q -- .
done
