"""mkseed.py: create /verif/seeded/<id> from a description read on stdin (python dict literal file)
   {id, property, needs, breaks, file, edits:[(old,new)...] or files:{file:[(old,new)]}, demo}"""
import sys,os,json,subprocess,shutil
R=os.environ.get('SR','/tmp/seedrepo')
def make(id,property,needs,breaks,files,demo):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    subprocess.check_call(['git','-C',R,'fetch','-q','/repo']); subprocess.check_call(['git','-C',R,'reset','-q','--hard','FETCH_HEAD'])
    for f,eds in files.items():
        p=R+'/core/src/'+f; s=open(p,newline='').read()
        for o,n in eds:
            if s.count(o)!=1: sys.exit('%s: %d occurrences of %r in %s'%(id,s.count(o),o,f))
            s=s.replace(o,n)
        open(p,'w',newline='').write(s)
    diff=subprocess.check_output(['git','-C',R,'diff'])
    open(d+'/patch.diff','wb').write(diff)
    subprocess.check_call(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/demo.cpp','w').write(demo.lstrip('\n'))
    json.dump(dict(property=property,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.copy('/verif/seedtools/hb.h',d); shutil.copy('/verif/seedtools/demo.sh',d)
