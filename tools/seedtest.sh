#!/bin/bash
# seedtest.sh ID [notest|fast]: confirms a planted bug in a private mount of a copy of /repo:
# demo passes unchanged, patch applies, builds, the stable tests pass, demo fails, and the property's check reports it.
# "fast" skips the repository's tests. The real /repo is never touched.
id=$1; mode=$2; W=$(mktemp -d /tmp/seedt.XXXXXX)
export id mode W
unshare -m bash -c '
mkdir -p $W/repo && cp -a /repo/. $W/repo/ && mount --bind $W/repo /repo || exit 9
cp -a /verif/seeded/$id $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cd /repo; prop=$(python3 -c "import json;print(json.load(open(\"/verif/seeded/$id/meta.json\"))[\"property\"])")
git checkout -q -- . ; bash /opt/vp/build.sh >$W/b0 2>&1
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; r0=$?
git apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; exit 1; }
if [ "$mode" != fast ]; then bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1; t=$(python3 -c "
import json;d=json.load(open(\"$W/t.json\"));b=json.load(open(\"/opt/vp/BASELINE.json\"));print(len(d[\"passed\"]),d[\"failed\"])"); else bash /opt/vp/build.sh >$W/b1 2>&1 || echo BUILD-FAILED; t=skipped; fi
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; r1=$?
cd /verif; python3 run.py $prop --tier quick >$W/c 2>&1; rc=$?
echo "$id $prop: demo unchanged=$r0 patched=$r1 tests=$t check=$rc $(grep -m1 VIOLATION $W/c)"
[ $r0 = 0 ] || tail -5 $W/d0; [ $r1 != 0 ] || tail -5 $W/d1
[ $rc = 1 ] || tail -3 $W/c
grep -m2 -A1 VIOLATION $W/c | cut -c1-300
'
rm -rf "$W"
