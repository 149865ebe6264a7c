#!/bin/bash
# plant.sh ID: confirm seeded/ID (build, stable tests, demo passes without and fails with the patch), and run the given checks against it
# usage: plant.sh ID [PROPERTY...]   (applies the patch to /repo and undoes it afterwards)
d=/verif/seeded/$1; id=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP_CONFIRM" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo.out 2>&1 || { echo "$id: demo fails on the unchanged tree"; tail -5 /tmp/demo.out; exit 1; }
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/build.out 2>&1 || { echo "$id: does not build"; grep -A5 '^error' /tmp/build.out | head -20; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 -c "
import json,sys;a=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in a['passed']]
if m: print('$id: tests fail',m); sys.exit(1)" || exit 1
if timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1; then echo "$id: demo passes with the patch"; exit 1; fi
echo "$id: confirmed"
else git apply $d/patch.diff || exit 1; fi
for p in "$@"; do bash /verif/run.sh check $p quick >/tmp/plant.$p.out 2>&1; r=$?; echo "  $p exit $r: $(grep -A1 -m1 VIOLATION /tmp/plant.$p.out | tail -1 | cut -c1-200)"; done
