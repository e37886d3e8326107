#!/bin/bash
# verify.sh ID: (development aid) checks a planted bug in the scratch copy /tmp/seedrepo
id=$1; d=/verif/seeded/$id; R=${SR:-/tmp/seedrepo}; X=; case $R in *2) X=2;; esac
[ -f $d/demo.cpp ] && cp /verif/seedtools/demo.sh $d/demo.sh && cp /verif/seedtools/hb.h $d/hb.h
cd $R && git fetch -q /repo && git reset -q --hard FETCH_HEAD || exit 9
bash /tmp/seedbuild$X.sh >/tmp/sb$X.log 2>&1 || { echo "$id base build failed"; exit 1; }
if [ -z "$NOBASE" ]; then timeout 300 sh $d/demo.sh >/tmp/sd0.log 2>&1 || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/sd0.log; exit 1; }; fi
git apply $d/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /tmp/seedbuild$X.sh >/tmp/sb$X.log 2>&1 || { echo "$id: patched build failed"; grep error /tmp/sb$X.log | head; git checkout -q -- .; exit 1; }
timeout 300 sh $d/demo.sh >/tmp/sd1.log 2>&1; rc=$?
bash /tmp/seedtest_run$X.sh /tmp/seedt$X.json >/tmp/st.log 2>&1
X=$X python3 - <<'P'
import json,os
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seedt'+os.environ['X']+'.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in('passed','pass',True)}
m=sorted(b-names(t)); print('  tests: ', 'ok' if not m else 'BROKEN %s'%m[:8])
P
echo "  demo with patch: rc=$rc $(tail -1 /tmp/sd1.log)"
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for q in ${2:-$p}; do
  out=$(cd /verif && HB_REPO=$R python3 check.py $q --tier quick 2>&1); echo "  check $q: rc=$? $(echo "$out" | grep -m1 VIOLATION)"
done
git checkout -q -- .
