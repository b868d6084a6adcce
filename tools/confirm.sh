#!/bin/bash
# confirm.sh ID [nocheck]: is the planted bug seeded/ID valid, and does its check catch it? Works on /repo and undoes the change.
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ -z "$(git -C /repo status --short)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "$id: does not build"; exit 2; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
t=$(python3 -c "
import json;t=set(json.load(open('/tmp/t.json'))['passed']);b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);print('tests-ok' if b<=t else 'TESTS-FAIL %s'%sorted(b-t)[:3])")
timeout 300 bash $d/demo.sh >/tmp/demo1.log 2>&1; b=$?
c=-
if [ -z "$2" ]; then cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 run.py $prop >/tmp/c.log 2>&1; c=$?; tail -3 /tmp/c.log | cut -c1-400; fi
echo "$id ($prop): demo clean=$a patched=$b; $t; check exit=$c"
