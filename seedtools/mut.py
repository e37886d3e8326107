import re,random,subprocess,os,json,sys,time,glob
R="/tmp/seedrepo"; V="/verif"
sys.path.insert(0,"/tmp/vcopy")
SEED=int(sys.argv[1]); N=int(sys.argv[2]); only=sys.argv[3] if len(sys.argv)>3 else ""
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
sh(f"cd {R} && git fetch -q /repo && git reset -q --hard FETCH_HEAD")
base=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k]) if not isinstance(x[k],dict) else {n for n,v in x[k].items() if v in('passed','pass',True)}
skip=("Log.cpp","app/","Includes")
files=[f for f in glob.glob(R+"/core/src/**/*.cpp",recursive=True) if not any(s in f for s in skip) and only in f]
muts=[]
for f in files:
    L=open(f).read().split('\n')
    infn=False
    for i,l in enumerate(L):
        s=l.strip()
        if not s or s.startswith(('//','#','*','/*','assert','Log','throw','std::format','"','namespace','using','case','default','}')): continue
        if i>0 and ('Log' in L[i-1] or 'throw' in L[i-1] or 'format' in L[i-1]) and not L[i-1].strip().endswith((';','{','}')): continue
        if not l.startswith(' '): continue
        if 'throw' in s or 'LogError' in s or 'LogWarning' in s or 'LogDebug' in s: continue
        cand=[]
        code=re.sub(r'"[^"]*"',lambda m:' '*len(m.group()),l).split('//')[0]
        def rep(pat,new,desc):
            for m in re.finditer(pat,code): cand.append((l[:m.start()]+new+l[m.end():],desc))
        if 'template' not in code and '<<' not in code:
            rep(r' < ',' <= ','<'); rep(r' > ',' >= ','>'); rep(r' <= ',' < ','<='); rep(r' >= ',' > ','>=')
        rep(r' == ',' != ','=='); rep(r' != ',' == ','!='); rep(r' && ',' || ','&&'); rep(r' \|\| ',' && ','||')
        rep(r' \+ ',' - ','+'); rep(r' - ',' + ','-'); rep(r' \* (?=[\w\(_])',' / ','*'); rep(r' / ',' * ','/')
        rep(r' \+= ',' = ','+='); rep(r' -= ',' += ','-=')
        rep(r'\btrue\b','false','t'); rep(r'\bfalse\b','true','f')
        rep(r'\b0\b(?!\.|x)','1','0'); rep(r'\b1\b(?!\.)','2','1'); rep(r'\b1\.0\b','0.5','1.0')
        rep(r'std::min','std::max','min'); rep(r'std::max','std::min','max')
        m=re.match(r'^(\s+)(?:else )?if \((.*)\) \{$',l)
        if m and '} else' not in l:
            cand.append((m.group(1)+'if (false && ('+m.group(2)+')) {','iff'))
            cand.append((m.group(1)+'if (true || ('+m.group(2)+')) {','ift'))
        if re.match(r'^\s+[\w_>\.\-\[\]\(\)\*:, ]+(\(.*\)| [\+\-\*/]?= .*);$',l) and not re.match(r'^\s+(const |auto |int |double |float |bool |string |vec\w* |ax\w* |std::|return|for|size_t |\w+\*? \w+ =|\w+\* |Time |else)',l) and not l.rstrip().endswith('= default;'):
            cand.append(('','del'))
        if s in('continue;','break;','return;'): cand.append(('','del'))
        for c,d in cand: muts.append((f,i,c,d))
random.seed(SEED); random.shuffle(muts)
print(len(muts),"possible",flush=True)
sys.path.insert(0,V)
os.environ["HB_REPO"]=R
order_all="B01 N02 L01 R01 N01 G01 S02 T02 O01 C02 P01 C01 C03 N04 N05 N03 S01 V01 R03 R02 R04 B02 O02 L02 G02 P02 T01 D01 D02".split()
rel={'glacier':'G01 G02 C01','lateral':'S02','routinghbv':'N05 R03','gr4j':'N04','gr6j':'N04','routinggr':'N04 R01','lateralsnow':'S02 R01','cemaneige':'N02 N03','settingsbasin':'C02 C01','settingsmodel':'P01 C01 V01','timeseries':'T02 C02','resultwriter':'O02','logger':'O01 B01','utilsdatetime':'D01 D02','parameter':'P02 P01','solver':'N01 B02','processor':'N01 L01','watercontainer':'B02 N01 B01','hydrounit':'L01 C01 C02','actions':'L02 G01 G02 C01','modelbuilder':'V01 S01 C01 P01','modelhydro':'C03 R03 T02','timemachine':'T01 C01','splitter':'N03','netcdf':'O02 C02','subbasin':'C01 C03 S01','canopy':'N02','melt':'N02','utils':'C02'}
def order(f):
    b=f.lower(); o=[]
    for k,v in rel.items():
        if k in b: o+=v.split()
    return list(dict.fromkeys(o+order_all))
n=0;t0=time.time();st=dict(build=0,tests=0,caught=0,missed=0)
done=set()
cnt={}
for f,i,c,d in muts:
    if n>=N: break
    if (f,i) in done or cnt.get(f,0)>max(3,int(0.05*len(open(f).readlines()))): continue
    done.add((f,i)); 
    src=open(f).read(); L=src.split('\n'); old=L[i]; L[i]=c
    open(f,'w').write('\n'.join(L))
    try:
        r=sh("bash /tmp/seedbuild.sh")
        if r.returncode: st['build']+=1; continue
        sh("bash /tmp/seedtest_run.sh /tmp/seedt.json",timeout=200)
        if base-names(json.load(open('/tmp/seedt.json'))): st['tests']+=1; continue
        n+=1; cnt[f]=cnt.get(f,0)+1
        r=sh(f"cd /tmp/vcopy && python3 -c 'import hbuild;print(hbuild.build(\"rel\"))'")
        exe=r.stdout.strip().split('\n')[-1]
        hit=None
        for q in order(f):
            for x in glob.glob('/tmp/mq*'): os.unlink(x)
            ps=[subprocess.Popen(["timeout","150",exe,q,"--tier","quick","--shard","%d/32"%(4*k+SEED%4),"--out","/tmp/mq%d"%k],stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL,env=dict(os.environ,HB_SCRATCH="/tmp/mscratch",TZ="UTC")) for k in range(8)]
            rcs=[p.wait() for p in ps]
            bad=any(rcs)
            for k in range(8):
                try: bad|=bool(json.load(open("/tmp/mq%d"%k))["failures"])
                except Exception: bad=True
            if bad: hit=q; break
        st['caught' if hit else 'missed']+=1
        if not hit: print("MISSED %s:%d [%s]\n   - %s\n   + %s"%(f[len(R)+10:],i+1,d,old.strip(),c.strip()),flush=True)
        else: print("caught by %s %s:%d [%s] %s"%(hit,f[len(R)+10:],i+1,d,c.strip()[:60]),flush=True)
    except subprocess.TimeoutExpired: st['tests']+=1
    finally:
        open(f,'w').write(src)
    if n%10==0: print(st,round(time.time()-t0),flush=True)
print(st,round(time.time()-t0))
