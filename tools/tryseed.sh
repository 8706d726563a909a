#!/bin/bash
# tryseed.sh ID...   confirm a planted bug (builds, passes the tests, demo 0 without and nonzero with it) and run its property's check at 10 %
for i in "$@"; do
  d=/verif/seeded/$i; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is dirty"; exit 1; }
  (cd /repo && bash $d/demo.sh > /tmp/demo.out 2>&1); a=$?
  git -C /repo apply $d/patch.diff || { echo "$i: DOES NOT APPLY"; continue; }
  bash /opt/vp/build.sh > /tmp/build.out 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/o.json > /dev/null 2>&1; t=$(python3 -c "
import json;d=json.load(open('/tmp/o.json'));print(len(set(json.load(open('/opt/vp/BASELINE.json'))['stable'])-set(d.get('passed',d.get('pass',[])))))")
  (cd /repo && bash $d/demo.sh > /tmp/demo2.out 2>&1); c=$?
  git -C /repo checkout -q -- .
  echo "$i ($prop): demo clean=$a build=$b stable-tests-lost=$t demo patched=$c  $(tail -1 /tmp/demo2.out | cut -c1-150)"
  [ $a = 0 ] || tail -5 /tmp/demo.out
  [ $b = 0 ] || tail -5 /tmp/build.out
  /verif/tools/sense.sh $d/patch.diff ${SC:-20} ${IDS:-$prop} | cut -c1-300
done
