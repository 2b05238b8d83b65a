#!/bin/bash
# seed.sh ID [--no-tests] [CHECK...]: confirm one planted bug in a scratch copy that is bind-mounted over /repo
# (user+mount namespace, the real /repo and /verif are never touched), then run its demo and the checks.
ID=$1; shift; NOTEST=0; [ "$1" = --no-tests ] && { NOTEST=1; shift; }
S=/tmp/seedscratch_$ID; rm -rf /tmp/seedscratch_$ID; mkdir -p $S
cp -a /repo $S/repo; cp -a /verif $S/verif; [ -d /verif/seeded/$ID ] || { echo no such bug; exit 1; }
cp -r /verif/seeded/$ID $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
export S ID NOTEST CHECKS="$*"
unshare -Urm bash <<'I'
mount --bind $S/repo /repo; mount --bind $S/verif /verif; mount --bind $S/demo /mnt
cd /repo; bash /opt/vp/build.sh </dev/null >/dev/null 2>&1
bash /mnt/demo.sh </dev/null > $S/demo0.log 2>&1; r=$?; echo "demo unchanged: $r (want 0)"; [ $r = 0 ] || tail -5 $S/demo0.log
git -C /repo apply /verif/seeded/$ID/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh </dev/null > $S/build.log 2>&1 || { echo BUILD FAILS; grep -m5 error $S/build.log; exit 1; }
timeout 300 bash /mnt/demo.sh </dev/null > $S/demo1.log 2>&1; r=$?; echo "demo patched: $r (want nonzero)"; tail -3 $S/demo1.log
if [ $NOTEST = 0 ]; then
bash /opt/vp/test.sh $S/out.json </dev/null > /dev/null 2>&1
python3 - <<P
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$S/out.json')); m=sorted(b-set(o['passed']))
print('stable tests failing:',len(m), m[:6])
P
fi
prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
for c in ${CHECKS:-$prop}; do cd /verif; timeout 900 python3 run.py check $c --tier quick </dev/null > $S/c_$c.log 2>&1; r=$?; echo "check $c: exit $r (want 1 for $prop)"; grep -A2 -m1 VIOLATION $S/c_$c.log || tail -1 $S/c_$c.log | cut -c1-300; done
I
rm -rf /tmp/seedscratch_$ID
