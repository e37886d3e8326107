import json,sys,subprocess,os,glob
import hbuild
p=sys.argv[1];tier=sys.argv[2] if len(sys.argv)>2 else "quick"
[os.remove(f) for f in glob.glob("/tmp/g[0-7]*")]
exe=hbuild.build(os.environ.get("FL","rel"))
os.environ["HB_GROUP"]="1"
ps=[subprocess.Popen([exe,p,"--tier",tier,"--shard","%d/8"%i,"--out","/tmp/g%d"%i]) for i in range(8)]
[x.wait() for x in ps]
d={};ex={}
for i in range(8):
    r=json.load(open("/tmp/g%d"%i))
    for k,v in r["dims"].items():
        if k.startswith("FAIL"): d[k]=d.get(k,0)+v
    for f in r["failures"]:
        ex.setdefault(f["key"],[]).append((f["case"],f["msg"]))
for k in sorted(d): print(k,d[k])
for k in ex:
    for e in sorted(ex[k],key=lambda e:len(e[0]))[:6]: print(k,*e)
