#!/bin/bash
# plant.sh <id> [property ...]: verifies /verif/seeded/<id> against /repo (which must be clean; run it on scratch
# copies mounted at /repo and /verif): the demo passes on the clean tree; with the patch the tree builds, the
# stable tests pass, the demo fails; then runs the check of the property (and others named).
id=$1; shift
S=/verif/seeded/$id
L=/tmp/plant-$id; rm -rf /tmp/plant-$id; mkdir -p $L
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ -z "$CHECKONLY" ]; then
bash /opt/vp/build.sh >$L/build0 2>&1
(cd /repo && timeout 300 bash $S/demo.sh >$L/demo0 2>&1); d0=$?; fi
git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; exit 2; }
if [ -z "$CHECKONLY" ]; then
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh $L/o.json >$L/test 2>&1
miss=$(python3 - <<P
import json
try:
    o=set(json.load(open('$L/o.json'))['passed']); print(*[t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in o])
except Exception as e: print('ERR',e)
P
)
else bash /opt/vp/build.sh >$L/build1 2>&1; miss="(not run)"; fi
(cd /repo && timeout 300 bash $S/demo.sh >$L/demo1 2>&1); d1=$?
echo "$id [$prop] demo clean=$d0 patched=$d1 tests missing: ${miss:-none}"
fi
for p in $prop "$@"; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash /verif/check.sh $p >$L/check-$p 2>&1; c=$?
  echo "$id check $p exit=$c $(grep -c "^VIOLATION property=$p " $L/check-$p) violations: $(grep -m1 "shrunk\|FAILED" $L/check-$p | cut -c1-250)"
done
git -C /repo checkout -- .
