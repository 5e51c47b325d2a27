#!/bin/bash
# try.sh SEED-DIR [-n] [check ids...]: in private copies of /repo and /verif (mounted over the
# real ones in a mount namespace) builds the patched tree, runs the stable tests (-n: skips
# them), the demonstration on the plain and on the patched tree, then the named checks.
# Needs the privilege to make mounts; development only, no check uses it.
S=$(realpath "$1"); shift
NOTEST=0; [ "$1" = -n ] && { NOTEST=1; shift; }
ID=$(basename "$S"); W=/tmp/try/$ID
[ -n "$ID" ] && rm -rf /tmp/try/"$ID"; mkdir -p $W/demo
cp -a /repo $W/repo; mkdir $W/verif; (cd /verif; cp -a bin engine tools check.sh setup.sh known-findings.txt properties.jsonl MANIFEST.json $W/verif/); mkdir $W/verif/evidence
cp -a "$S"/. $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cp "$S/patch.diff" $W/patch.diff
export W NOTEST
unshare -m bash -s -- "$@" <<'IN'
mount --bind $W/repo /repo; mount --bind $W/verif /verif
cd /repo; git checkout -q -- .
if [ $NOTEST = 0 ]; then
bash /opt/vp/build.sh >$W/build0.log 2>&1 || echo "BASE BUILD FAILED"
(cd /repo; timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1); echo "demo plain rc=$?"
fi
git apply $W/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
if [ $NOTEST = 0 ]; then
bash /opt/vp/test.sh $W/out.json >$W/test.log 2>&1
grep -iE "warning" $W/test.log | head -3
python3 - <<'P'
import json,os
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(os.environ['W']+'/out.json'))
s=b.get('stable') or b.get('passed') or b
m=[t for t in s if t not in o['passed']]
print('tests missing', len(m), m[:5], 'of', len(s))
P
(cd /repo; timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1); echo "demo patched rc=$?"; tail -2 $W/demo1.log
fi
for c in "$@"; do
 t0=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $c quick >$W/$c.log 2>&1; r=$?; t1=$(date +%s)
 echo "check $c rc=$r $((t1-t0))s: $(grep -m1 -E 'VIOLATION' $W/$c.log)"; [ $r != 0 ] && grep -v VIOLATION $W/$c.log | tail -3
done
IN
