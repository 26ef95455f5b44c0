#!/bin/bash
# seedtest.sh ID [check...]: validate /verif/seeded/ID in a scratch copy of /repo (private mount namespace)
# and run the check of its property (or the given ones) against it. Not used by any registered check.
id=$1; shift; S=/tmp/sc/$id; V=/verif/seeded/$id
[ -d "$V" ] || { echo "no $V"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$V/meta.json'))['property'])")
checks="${*:-$prop}"
mkdir -p /tmp/sc; rm -rf "$S"; cp -a /repo "$S"
unshare -m bash -c '
S=$1; V=$2; id=$3; checks=$4
mount --bind $S /repo; mount -t tmpfs none /dev/shm
cd /repo; git checkout -q -- . 
L=/tmp/sc/$id.log; : > $L
D=$(mktemp -d /tmp/sc/demo.XXXX); cp -a $V/. $D/; rm -f $D/*.diff $D/meta.json
bash /opt/vp/build.sh >>$L 2>&1 || echo "$id: base build fails"
timeout 300 bash $D/demo.sh >>$L 2>&1; d0=$?
git apply $V/patch.diff || { echo "$id: patch does not apply"; exit 1; }
timeout 900 bash /opt/vp/test.sh /tmp/sc/$id.json >>$L 2>&1
t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]; o=json.load(open(\"/tmp/sc/$id.json\")); print(\",\".join(x for x in b if x not in o[\"passed\"]) or \"ok\")")
timeout 300 bash $D/demo.sh >>$L 2>&1; d1=$?
r=""
for c in $checks; do timeout 900 python3 /verif/run.py $c --tier quick --evdir /tmp/sc/ev.$id > /tmp/sc/$id.$c.out 2>&1; rc=$?; r="$r $c:$rc"; grep -q "VIOLATION property=$c" /tmp/sc/$id.$c.out && r="$r(V)"; done
echo "$id: demo clean=$d0 patched=$d1 tests=$t checks=$r"
rm -rf $D
' _ "$S" "$V" "$id" "$checks"
rm -rf "$S" /tmp/sc/ev.$id
