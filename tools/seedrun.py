"""usage: run.py verify ID...   : scratch copy, apply, build, tests, demo (with/without)
          run.py check ID PROP... : run checks against the patched copy"""
import sys, os, subprocess, shutil, json
S='/verif/seeded'
PY='/opt/venv/bin/python'
def copy(i):
    d='/tmp/sd/'+i
    shutil.rmtree(d,True); os.makedirs('/tmp/sd',exist_ok=True)
    subprocess.run(['cp','-a','/repo',d],check=True)
    for s in ('build','test'):
        t=open('/opt/vp/%s.sh'%s).read().replace('/repo',d).replace('/opt/vp/report',d+'-report').replace('/opt/vp/build.sh',d+'-build.sh').replace("'/repo/'","'%s/'"%d)
        open(d+'-%s.sh'%s,'w').write(t)
    subprocess.run(['sed','-i','s#/repo/#%s/#'%d,d+'/build/vp-stamp'])
    return d
def demo(i,d):
    w='/tmp/sd/%s-demo'%i
    shutil.rmtree(w,True); os.makedirs(w)
    for f in os.listdir(S+'/'+i):
        if not f.endswith(('.diff','.patch')) and f!='meta.json': shutil.copy(S+'/'+i+'/'+f,w)
    r=subprocess.run(['bash',w+'/demo.sh'],cwd=d,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=300)
    return r.returncode,r.stdout[-600:]
def verify(i):
    d=copy(i)
    ok=True
    if subprocess.run(['git','-C',d,'status','--short'],capture_output=True,text=True).stdout: print('dirty')
    rc,o=demo(i,d); print(i,'demo clean',rc, '' if rc==0 else o); ok&=rc==0
    r=subprocess.run(['git','-C',d,'apply',S+'/'+i+'/patch.diff'],capture_output=True,text=True)
    if r.returncode: print('APPLY',r.stderr); return False
    # removed lines must exist in base
    for line in open(S+'/'+i+'/patch.diff'):
        if line.startswith('-') and not line.startswith('---'):
            f=[l for l in open(S+'/'+i+'/patch.diff') if l.startswith('--- a/')][0][6:].strip()
            base=subprocess.run(['git','-C',d,'show','cd2b347:'+f],capture_output=True,text=True).stdout
            if line[1:].strip() not in base: print('NOT ORIGINAL:',line)
    r=subprocess.run(['bash',d+'-test.sh',d+'-t.json'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    try:
        base=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); got=set(json.load(open(d+'-t.json'))['passed'])
        print(i,'tests missing:',sorted(base-got)); ok&=not(base-got)
    except Exception as x: print('TEST',x,r.stdout[-2000:]); ok=False
    rc,o=demo(i,d); print(i,'demo patched',rc,o.strip()[-200:]); ok&=rc!=0
    print(i,'OK' if ok else 'NOT OK',flush=True)
    return ok
def check(i,props):
    d='/tmp/sd/'+i
    e=dict(os.environ,VERIF_REPO=d,VERIF_SEED=os.environ.get('VERIF_SEED','1'))
    for p in props:
        r=subprocess.run(['python3','harness/check.py',p],cwd='/verif',env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
        print(i,p,r.returncode,[l for l in r.stdout.splitlines() if 'event' in l or 'VIOL' in l or 'MACH' in l][:3],flush=True)
if sys.argv[1]=='verify':
    for i in sys.argv[2:]: verify(i)
elif sys.argv[1]=='check': check(sys.argv[2],sys.argv[3:])
elif sys.argv[1]=='all':
    for i in sys.argv[2:]:
        m=json.load(open(S+'/'+i+'/meta.json'))
        if not os.path.exists('/tmp/sd/'+i): verify(i)
        check(i,[m['property']])
