#!/bin/bash
# Development aid: bin/seed.sh ID [-nocheck|-notest]: validate a planted change in a scratch copy and run its property's check on it.
ID=$1; OPT=$2; S=/verif/seeded/$ID; R=/tmp/seedrepo
mkdir -p $R
rsync -a --delete --exclude _build /repo/ $R/ 2>/dev/null || { rm -rf /tmp/seedrepo.new; }
cd $R && git checkout -q -- . || exit 2
sed 's#/repo#/tmp/seedrepo#g' /opt/vp/build.sh > /tmp/seed_build.sh
sed 's#/repo#/tmp/seedrepo#g; s#/opt/vp/build.sh#/tmp/seed_build.sh#g' /opt/vp/test.sh > /tmp/seed_test.sh
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
D=/tmp/seed_demo_$ID; mkdir -p $D; cp -r $S/. $D/; rm -f $D/patch.diff $D/meta.json
bash /tmp/seed_build.sh >/tmp/seed_b.log 2>&1 || { echo BUILD-CLEAN-FAILED; tail -5 /tmp/seed_b.log; exit 1; }
if [ "$OPT" != -checkonly ]; then timeout 300 bash $D/demo.sh >/tmp/seed_d0.log 2>&1; c0=$?; else c0=-; fi
git apply $S/patch.diff || { echo APPLY-FAILED; exit 1; }
bash /tmp/seed_build.sh >/tmp/seed_b.log 2>&1 || { echo BUILD-FAILED; grep -E "error" /tmp/seed_b.log|head -5; git checkout -q -- .; exit 1; }
if [ "$OPT" != -checkonly ]; then timeout 300 bash $D/demo.sh >/tmp/seed_d1.log 2>&1; c1=$?; else c1=-; fi
T=skipped
if [ "$OPT" != -notest ] && [ "$OPT" != -checkonly ]; then
bash /tmp/seed_test.sh /tmp/seed_t.json >/tmp/seed_t.log 2>&1
T=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/seed_t.json'))
m=sorted(set(b['stable'])-set(t['passed']));print("pass" if not m else "MISSING %s"%m)
PY
); fi
t0=$SECONDS
VP_REPO=$R VP_BUILD=/tmp/seedbuild VP_EVID=/tmp/seedevid python3 /verif/bin/check.py $P quick >/tmp/seed_c.log 2>&1; ck=$?
echo "$ID property=$P demo clean=$c0 patched=$c1 tests=$T check=$ck ($((SECONDS-t0))s) $(grep -m1 VIOLATION /tmp/seed_c.log)"
git checkout -q -- .
rm -rf $D
