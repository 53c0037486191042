#!/bin/bash
# trybug.sh ID...: with /repo clean and built: demo on the clean tree, then apply, build, stable tests, demo, check; prints one line each
cd /repo; git diff --quiet || { echo dirty; exit 2; }
bash /opt/vp/build.sh >/tmp/tb.log 2>&1 || { echo clean build failed; exit 2; }
for id in "$@"; do d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
 bash $d/demo.sh >/tmp/tb-$id.clean 2>&1; c=$?
 git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
 bash /opt/vp/build.sh >/tmp/tb-$id.build 2>&1; b=$?
 bash /opt/vp/test.sh /tmp/tb-$id.json >/tmp/tb-$id.test 2>&1; t=$(tail -1 /tmp/tb-$id.test)
 bash $d/demo.sh >/tmp/tb-$id.demo 2>&1; m=$?
 (cd /verif; ./check $prop quick >/tmp/tb-$id.check 2>&1); k=$?
 git checkout -q -- .
 echo "$id $prop: demo clean=$c build=$b tests='$t' demo=$m check=$k $(grep -c '^VIOLATION' /tmp/tb-$id.check)"
done
