#!/bin/bash
# plant.sh ID [notests]: applies seeded/ID/patch.diff to /repo, builds, runs tests, demo and the property's check, and undoes it.
id=$1; d=/verif/seeded/$id; p=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain -uno)" ] || { echo "/repo not clean"; exit 1; }
bash /opt/vp/build.sh > /tmp/plant.log 2>&1 || { echo "clean build fails"; exit 1; }
bash $d/demo.sh > /tmp/plant.demo0 2>&1; echo "$id demo clean rc $?"
git apply $d/patch.diff || { echo "patch does not apply"; exit 1; }
if bash /opt/vp/build.sh > /tmp/plant.log 2>&1; then
  [ "$2" = notests ] || bash /verif/tools/repotest.sh
  bash $d/demo.sh > /tmp/plant.demo1 2>&1; echo "$id demo planted rc $?"; tail -2 /tmp/plant.demo1
  (cd /verif && timeout 900 python3 check.py $p 2>&1 | tail -4 | cut -c1-400)
else echo "planted build fails"; tail -20 /tmp/plant.log; fi
git checkout -q -- .
bash /opt/vp/build.sh > /tmp/plant.log 2>&1
