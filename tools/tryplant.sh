#!/bin/bash
# tools/tryplant.sh [-n] ID: confirm a planted bug in a scratch copy bind-mounted over /repo inside a private
# namespace: demo on the clean tree, demo with the patch, stable tests with the patch, the property's check.
# -n: skip the tests
notests=; [ "$1" = -n ] && { notests=1; shift; }
id=$1; V=$(cd "$(dirname "$0")/.." && pwd)
S=$(mktemp -d /tmp/plant.XXXX); mkdir $S/work $S/ev $S/seed; cp -a /repo $S/repo; cp -a $V/seeded/$id $S/seed/
prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $S/repo /repo; mount --bind $S/work /opt/vp/work; mkdir -p $V/evidence; mount --bind $S/ev $V/evidence
cd /repo && git checkout -q -- .
bash $S/seed/$id/demo.sh >$S/d0 2>&1; echo demo-clean \$?
git apply $S/seed/$id/patch.diff || exit 9
bash $S/seed/$id/demo.sh >$S/d1 2>&1; echo demo-patched \$?; tail -1 $S/d1
[ -z '$notests' ] && { bash /opt/vp/build.sh >$S/b 2>&1; echo build \$?; bash /opt/vp/test.sh $S/out.json >$S/t 2>&1; python3 $V/tools/stable.py $S/out.json; }
cd $V && VERIF_SEED=1 VERIF_TIER=quick python3 check.py --property $prop >$S/c 2>&1; echo check \$?; grep -a -E 'VIOLATION|exit' $S/c | head -5
" > $S/log 2>&1
echo "== $id ($prop)"; cat $S/log; rm -rf $S
