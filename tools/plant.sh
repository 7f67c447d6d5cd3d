#!/bin/bash
# plant.sh ID [nocheck]: confirm a planted bug: applies, builds, stable tests pass, demo 0 without / nonzero with, then runs the property's check
id=$1; d=/verif/seeded/$id
cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d); cp -a $d/. $t/; rm -f $t/*.diff $t/meta.json
bash $t/demo.sh > /tmp/plant.$id.clean 2>&1; c0=$?
git apply $d/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/plant.$id.build 2>&1; b=$?
bash /opt/vp/test.sh /tmp/plant.$id.json > /tmp/plant.$id.test 2>&1
n=$(python3 -c "import json;d=json.load(open('/tmp/plant.$id.json'));b=json.load(open('/opt/vp/BASELINE.json'));b=b.get('stable',b.get('passed',b));s=[x for x in (b if isinstance(b,list) else b) if x not in d['passed']];print('missing',s)")
bash $t/demo.sh > /tmp/plant.$id.demo 2>&1; c1=$?
s=$(date +%s); r=-; if [ "$2" != nocheck ]; then (cd /verif; python3 check.py $p > /tmp/plant.$id.chk 2>&1); r=$?; fi
git checkout -q -- .
rm -rf "$t"
echo "$id $p build=$b tests: $n demo clean=$c0 patched=$c1 check=$r ($(( $(date +%s)-s ))s) $(grep -c '^VIOLATION property='$p /tmp/plant.$id.chk 2>/dev/null) $(grep -m1 -E '^  [a-z]' /tmp/plant.$id.chk 2>/dev/null| cut -c1-150)"
