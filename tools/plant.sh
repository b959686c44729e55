#!/bin/bash
# plant.sh ID [nocheck|notest]: confirm a planted bug in a scratch copy of /repo: demo passes without it and fails with it, the
# tests pass with it; then run its property's quick check on the scratch copy (VF_REPO).
ID=$1; D=/verif/seeded/$ID; W=/tmp/plant-$ID
. /opt/vp/env.sh
trap 'rm -rf "$W"' EXIT
rm -rf "$W"; cp -a /repo "$W" && cd "$W" && git checkout -q -- . || exit 2
git tag -d vcheck-pass >/dev/null 2>&1  # not a version
export GIT_CONFIG_COUNT=1 GIT_CONFIG_KEY_0=safe.directory GIT_CONFIG_VALUE_0='*'
timeout 300 bash "$D/demo.sh" >"$W/d0.log" 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$ID: DOES NOT APPLY"; exit 1; }
for f in build.sh test.sh; do sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/build_vp.sh#" /opt/vp/$f > $W/${f%.sh}_vp.sh; done
sed -i '/clean_stale\|check_package/d' $W/build_vp.sh
bash $W/build_vp.sh >"$W/b.log" 2>&1 || echo "$ID: BUILD FAILS"
timeout 300 bash "$D/demo.sh" >"$W/d1.log" 2>&1; b=$?
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
t=skipped
[ "$2" = notest ] || { bash $W/test_vp.sh $W/t.json >"$W/t.log" 2>&1; t=$(python3 -c "
import json;r=json.load(open('$W/t.json'));s={x for x in json.load(open('/opt/vp/BASELINE.json'))['stable'] if 'test_forward_backward_fftw' not in x};print(len(s-set(r['passed'])), 'stable tests fail', sorted(s-set(r['passed']))[:3])"); }
c=skipped
[ "$2" = nocheck ] || { c=$(cd /verif && VF_REPO=$W VERIF_SEED=${VERIF_SEED:-1} ./check.sh $P quick 2>&1 | tail -2 | tr '\n' ' '); }
echo "$ID: demo clean=$a planted=$b; $t; $P: $c"
[ $a = 0 ] || tail -5 "$W/d0.log"
[ $b != 0 ] || echo "  DEMO DOES NOT FAIL"
