#!/usr/bin/env python3
"""trym.py FILE [id...]: (development aid) plants candidate bugs in the scratch copy /tmp/seedrepo, builds, runs the tests and the named checks."""
import sys, subprocess, os, json
R=os.environ.get("SR","/tmp/seedrepo"); X="2" if R.endswith("2") else ""
ns={}; M=[]
def m(id,props,file,*subs): M.append((id,props.split(),{file:list(zip(subs[::2],subs[1::2]))} if isinstance(file,str) else file))
ns['m']=m
exec(open(sys.argv[1]).read(),ns)
sel=sys.argv[2:]
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
sh(f"cd {R} && git fetch -q /repo && git reset -q --hard FETCH_HEAD")
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in('passed','pass',True)}
for id,props,files in M:
    if sel and id not in sel: continue
    sh(f"cd {R} && git checkout -q -- .")
    ok=True
    for f,subs in files.items():
        p=f"{R}/core/src/{f}"; s=open(p).read()
        for a,b in subs:
            if s.count(a)!=1: print(id,"BAD ANCHOR",f,s.count(a),repr(a[:60]),flush=True); ok=False; break
            s=s.replace(a,b)
        if ok: open(p,'w').write(s)
    if not ok: continue
    r=sh("bash /tmp/seedbuild"+X+".sh")
    if r.returncode: print(id,"BUILD FAILED",[l for l in r.stdout.split('\n') if 'error' in l][:3],flush=True); continue
    sh("bash /tmp/seedtest_run"+X+".sh /tmp/seedt"+X+".json")
    miss=sorted(base-names(json.load(open('/tmp/seedt'+X+'.json'))))
    res=[]
    if miss: print(id,"tests broken:",miss[:3],len(miss),flush=True)
    if miss and not os.environ.get("ALL"): continue
    for q in props:
        c=sh(f"cd {os.environ.get("VW","/verif")} && HB_REPO={R} timeout 900 python3 check.py {q} --tier quick")
        v=[l for l in c.stdout.split('\n') if ' case ' in l][:1]
        res.append("%s:%s%s"%(q,{0:'MISSED',1:'caught'}.get(c.returncode,'rc%d'%c.returncode)," ["+v[0].strip()[:100]+"]" if v else ""))
    print(id,"|"," ".join(res),flush=True)
sh(f"cd {R} && git checkout -q -- .")
