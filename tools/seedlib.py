import os, subprocess, json, shutil
S='/verif/seeded'
SH='''#!/bin/bash
# run with cwd = the repository, after the build
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python "$here/demo.py"
'''
def seed(i,prop,edits,needs,breaks,demo):
    d=S+'/'+i; os.makedirs(d,exist_ok=True)
    w='/tmp/seedtree'
    shutil.rmtree(w,True)
    subprocess.run(['git','-C','/repo','worktree','prune'])
    subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,old,new in edits:
        t=open(w+'/'+f).read()
        assert t.count(old)==1,(i,f,t.count(old),old)
        open(w+'/'+f,'w').write(t.replace(old,new))
    p=subprocess.run(['git','-C',w,'diff'],capture_output=True,text=True).stdout
    open(d+'/patch.diff','w').write(p)
    open(d+'/demo.sh','w').write(SH); open(d+'/demo.py','w').write(demo)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    shutil.rmtree(w,True)
