#!/bin/sh
# seedtest.sh ID [nocheck] : try one planted bug on /repo and undo it
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 9; }
bash /opt/vp/build.sh >/dev/null 2>&1
sh $S/demo.sh >/tmp/demo0.log 2>&1; D0=$?
git apply $S/patch.diff || { echo "does not apply"; exit 9; }
B=0; bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1 || B=1
bash /opt/vp/test.sh /tmp/seedtest.json >/dev/null 2>&1
T=$(python3 -c "
import json;o=json.load(open('/tmp/seedtest.json'))['passed'];b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print(len(set(b)-set(o)))")
sh $S/demo.sh >/tmp/demo1.log 2>&1; D1=$?
C=-
[ "$2" = nocheck ] || { (cd /verif && VERIF_SEED=1 ./check.sh $P quick >/tmp/seedcheck.log 2>&1); C=$?; }
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
echo "$1 $P build=$B testsfailing=$T demo(clean)=$D0 demo(bug)=$D1 check=$C $(grep -c '^VIOLATION property='$P /tmp/seedcheck.log)"
