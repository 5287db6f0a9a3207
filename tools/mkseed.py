import sys,os,subprocess,json
def seed(id,edits,meta,demo,extra=()):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    patch=''
    files={}
    for f,old,new,nth in edits:
        s=files.get(f) or open('/repo/'+f).read()
        parts=s.split(old)
        assert len(parts)>1,(f,old)
        if nth is None: s=new.join(parts); 
        else: s=old.join(parts[:nth+1])+new+old.join(parts[nth+1:])
        files[f]=s
    for f,s in files.items():
        a='/tmp/_sa'; b='/tmp/_sb'
        for x,t in ((a,open('/repo/'+f).read()),(b,s)):
            p=x+'/'+f; os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(t)
        r=subprocess.run(['diff','-u','--label','a/'+f,'--label','b/'+f,a+'/'+f,b+'/'+f],capture_output=True,text=True)
        assert r.stdout
        patch+=r.stdout
    open(d+'/patch.diff','w').write(patch)
    assert subprocess.run(['git','-C','/repo','apply','--check',d+'/patch.diff']).returncode==0
    json.dump(meta,open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    open(d+'/demo.py','w').write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demo_lib import *\n\n'+demo)
    os.chmod(d+'/demo.sh',0o755)
    import shutil; shutil.copy('/verif/tools/demo_lib.py',d+'/demo_lib.py')
