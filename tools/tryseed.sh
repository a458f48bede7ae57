#!/bin/bash
# tryseed.sh ID... : demo on the clean tree, then patch: build, tests, demo, this property's check; then undo.
for id in "$@"; do
d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
lay=$(mktemp -d /tmp/lay.XXXX); cp $d/* $lay/; rm -f $lay/*.diff $lay/meta.json
(cd /repo && timeout 300 bash $lay/demo.sh >/tmp/demo0.log 2>&1); c0=$?
git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; rm -rf $lay; continue; }
bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; b=$?
t=$(bash /opt/vp/test.sh /tmp/seedtest.json 2>&1 | tail -1)
(cd /repo && timeout 300 bash $lay/demo.sh >/tmp/demo1.log 2>&1); c1=$?
(cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $p >/tmp/seedcheck.$id.log 2>&1); k=$?
git -C /repo checkout -q -- .
rm -rf $lay
echo "$id [$p]: demo clean=$c0 patched=$c1 build=$b tests=[$t] check=$k $(grep -c VIOLATION /tmp/seedcheck.$id.log)"
done
