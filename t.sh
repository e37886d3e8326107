#!/bin/sh
# rebuild /repo and run its tests; prints failures
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in('passed','pass',True)}
    return set(x)
B,T=names(b),names(t)
print(len(B),len(T),'missing',sorted(B-T)[:20])
P
