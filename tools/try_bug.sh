#!/bin/bash
# usage: try_bug.sh ID [-n]  (dir /verif/seeded/ID)
# In a private mount namespace (nothing is written in /repo, /verif, /opt):
# demo on the unchanged tree, patch, build, tests, demo, the check of the property.
# -n: without the tests
ID=$1; OPT=$2
if [ -z "$IN_NS" ]; then
    W=$(mktemp -d /tmp/trybug.XXXXXX)
    mount -t tmpfs -o size=3g tmpfs $W 2>/dev/null
    IN_NS=1 W=$W unshare -m --propagation private bash "$0" "$@"
    rc=$?
    umount $W 2>/dev/null
    rm -rf "$W"
    exit $rc
fi
mkdir $W/verif $W/repo
cp -a /repo/. $W/repo/ && mount --bind $W/repo /repo || exit 9
cp -a /verif/. $W/verif/ && mount --bind $W/verif /verif || exit 9
for d in /opt/venv /opt/vp; do
    n=$(echo $d | tr / _)
    mkdir -p $W/$n/u $W/$n/w
    mount -t overlay overlay -o lowerdir=$d,upperdir=$W/$n/u,workdir=$W/$n/w $d || exit 9
done
mkdir $W/demo && cp -a /verif/seeded/$ID/. $W/demo/ && rm -f $W/demo/*.diff $W/demo/meta.json
prop=$(python3 -c "import json; print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
cd /repo
(timeout 300 bash $W/demo/demo.sh) > $W/demo0.log 2>&1; r0=$?
git apply /verif/seeded/$ID/patch.diff || { echo "$ID patch does not apply"; exit 8; }
bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$ID build failed"; tail -5 $W/build.log; }
(timeout 300 bash $W/demo/demo.sh) > $W/demo1.log 2>&1; r1=$?
tests=skipped
if [ "$OPT" != -n ]; then
    bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
    tests=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/out.json'))
s=set(b['stable'])
print('ok' if s<=set(o['passed']) else 'FAILED '+str(sorted(s-set(o['passed']))[:4]))
P
)
fi
cd /verif
t0=$(date +%s)
cmd=$(python3 - <<P
import json
m=json.load(open('MANIFEST.json'))
for c in m['checks']:
    if c.get('property', c.get('id'))=='$prop':
        q=c['quick_cmd']
        print(q if isinstance(q,str) else ' '.join(q))
P
)
if [ -n "$cmd" ]; then
    VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 bash -c "$cmd" > $W/check.log 2>&1; rc=$?
else
    rc=nocheck
fi
t1=$(date +%s)
echo "BUG $ID property=$prop demo0=$r0 demo1=$r1 tests=$tests check_rc=$rc ($((t1-t0)) s)"
[ "$r0" = 0 ] || tail -5 $W/demo0.log
[ "$r1" != 0 ] || tail -3 $W/demo1.log
grep -h "VIOLATION\|clause" $W/check.log 2>/dev/null | sort | uniq -c | sort -rn | head -4
[ "$rc" = 2 ] && tail -5 $W/check.log
exit 0
