#!/bin/bash
# tryplant.sh ID [notest]: confirm a planted bug in a scratch copy and run its check on it.
id=$1; S=/verif/seeded/$id; W=/tmp/scr-$id
[ -f $S/patch.diff ] || { echo no such bug; exit 1; }
rm -rf "/tmp/scr-$id"; cp -a /repo $W; cd $W || exit 1
D=/tmp/demo-$id; rm -rf "/tmp/demo-$id"; mkdir $D; cp $S/* $D; rm -f $D/patch.diff $D/meta.json
export PYTHONDONTWRITEBYTECODE=1
timeout 300 bash $D/demo.sh >/tmp/demo-$id.pre 2>&1; a=$?
git apply $S/patch.diff || { echo "$id APPLY FAILED"; exit 1; }
timeout 300 bash $D/demo.sh >/tmp/demo-$id.post 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then
  sed "s#/repo#$W#g" /opt/vp/test.sh > /tmp/test-$id.sh
  bash /tmp/test-$id.sh /tmp/test-$id.json >/tmp/test-$id.log 2>&1
  t=$(python3 - <<PY
import json
o=json.load(open('/tmp/test-$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
miss=set(map(str,b['stable']))-set(map(str,o['passed']))
print('tests-ok' if not miss else 'TESTS-BROKEN %d %s'%(len(miss),sorted(miss)[:3]))
PY
)
fi
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /verif
SIM_REPO=$W SIM_OUT=/tmp/simout-$id PYTHONHASHSEED=0 VERIF_SEED=1 timeout 900 /opt/venv/bin/python -m simkit.runner $p --tier quick >/tmp/check-$id.log 2>&1; c=$?
echo "$id $p demo-pre=$a demo-post=$b $t check=$c $(grep -c VIOLATION /tmp/check-$id.log) $(grep -v VIOLATION /tmp/check-$id.log | sed -n 2p | cut -c1-160)"
rm -rf "/tmp/scr-$id" "/tmp/demo-$id" "/tmp/simout-$id" "/tmp/test-$id.sh"
