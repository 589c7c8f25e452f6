#!/bin/bash
# plant.sh ID [check|nocheck] [PROP...]: confirm a planted bug of /verif/seeded/ID in a private copy of /repo and /verif
# (user namespace, bind mounts: nothing outside the copy is touched), then run the property's check against it.
ID=$1; MODE=${2:-check}; shift; shift
W=$(mktemp -d /tmp/plant_XXXXXX); trap 'case "$W" in /tmp/plant_*) rm -rf "$W";; esac' EXIT
cp -a /repo $W/repo; mkdir $W/verif; cp -a /verif/. $W/verif/ 
P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cat > $W/in.sh <<EOS
mount --bind $W/repo /repo && mount --bind $W/verif /verif || exit 9
cp -a /verif/seeded/$ID $W/demo; cd /repo
if [ $MODE != checkonly ]; then
bash $W/demo/demo.sh > $W/d0.txt 2>&1; echo "demo unchanged: \$?"; tail -2 $W/d0.txt
fi
git -c safe.directory=/repo apply $W/demo/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 8; }
if [ $MODE != checkonly ]; then
bash /opt/vp/build.sh > $W/b.txt 2>&1 || { echo "BUILD FAILS"; tail -5 $W/b.txt; }
bash /opt/vp/test.sh $W/t.json > $W/t.txt 2>&1
python3 - <<PY
import json
t=json.load(open('$W/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('stable tests missing:', [x for x in b['stable'] if x not in t['passed']])
PY
bash $W/demo/demo.sh > $W/d1.txt 2>&1; echo "demo patched: \$?"; tail -3 $W/d1.txt
fi
if [ $MODE != nocheck ]; then cd /verif; for p in ${@:-$P}; do VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py \$p > $W/c.txt 2>&1; echo "check \$p rc=\$?"; grep -v '^KNOWN' $W/c.txt | tail -8; done; fi
EOS
echo "=== $ID ($P)"; unshare -Urm bash $W/in.sh
