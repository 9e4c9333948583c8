#!/bin/bash
# try.sh ID : confirm a planted bug in a scratch copy mounted over /repo in a private namespace, then run its check on it
ID=$1; V=${V:-/verif}; S=$V/seeded/$ID; W=/tmp/wt/$ID; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$W"; mkdir -p /tmp/wt
[ -d /tmp/wt/r0 ] || { cp -a /repo /tmp/wt/r0; (cd / && unshare -Urm bash -c "mount --bind /tmp/wt/r0 /repo && bash /opt/vp/build.sh") >/dev/null; }
cp -a /tmp/wt/r0 "$W"; cp -r "$S" "$W.s"; rm -f "$W.s"/*.diff "$W.s"/meta.json
cd / ; unshare -Urm bash -c "
mount --bind $W /repo; cd /repo
bash $W.s/demo.sh > $W.d0 2>&1; echo demo_clean=\$?
git apply $S/patch.diff || { echo APPLY-FAIL; exit; }
bash /opt/vp/test.sh $W.json > $W.t 2>&1; tail -1 $W.t
bash $W.s/demo.sh > $W.d1 2>&1; echo demo_bug=\$?; grep -m3 BROKEN $W.d1"
python3 - <<P
import json
d=json.load(open('$W.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
m=b-set(d['passed']);print('tests:', 'OK' if not m else 'LOST '+str(sorted(m)[:4]))
P
cd $V; VF_REPO=$W VF_CACHE=/tmp/wt/$ID.cache timeout 900 ./check.py $P --tier quick > $W.c 2>&1; echo "check $P rc=$?"; grep -m3 VIOLATION $W.c
rm -rf "$W" "$W.s" "$W.json" /tmp/wt/$ID.cache
