#!/bin/bash
# tools/plant.sh ID...: confirms planted changes (clean demo 0, builds, tests pass, demo nonzero) and runs the property's check
for id in "$@"; do
  d=/verif/seeded/$id
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  t=$(mktemp -d); cp $d/* $t; rm -f $t/meta.json $t/patch.diff
  cd /repo
  timeout 300 bash $t/demo.sh >$t/log0 2>&1; c=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=0; [ -n "$SKIPBUILD" ] || { bash /opt/vp/build.sh >$t/build 2>&1 || b=1; bash /opt/vp/test.sh $t/out.json >$t/test 2>&1; }
  f=$(python3 -c "import json;d=json.load(open('$t/out.json'));print(len(d['failed']))" 2>/dev/null)
  timeout 300 bash $t/demo.sh >$t/log1 2>&1; m=$?
  cd /verif; python3 check.py $prop >$t/check 2>&1; k=$?
  git -C /repo checkout -q -- .
  echo "$id ($prop): clean demo $c (0), build $b (0), failed tests $f (0), demo with patch $m (!=0), check $k (1) $(grep -m1 -o 'replay=.*' $t/check | sed 's,.*/,,')"
  [ $c = 0 ] || tail -5 $t/log0
  [ $m != 0 ] || tail -5 $t/log1
  [ $k = 1 ] || tail -5 $t/check
  rm -rf "$t"
done
[ -n "$SKIPBUILD" ] || bash /opt/vp/build.sh >/dev/null 2>&1
