"""Random small changes of the code under test, and which checks notice them.
usage: mutate.py SEED[,SEED...] COUNT WORKERS [FILE-REGEX]   appends to /tmp/mut/results.jsonl
Runs the checks beside it: use a copy of /verif to keep working."""
import os, re, sys, json, random, shutil, subprocess, tokenize, io
from concurrent.futures import ThreadPoolExecutor
R='/repo'
MAP=[
 (r'models/(plate|cylshell)_clpt_donnell_bardell\.pyx','C06 C08 C07 C12',6),
 (r'models/(plate|cylshell)_clpt_donnell_bardell_num\.pyx','C06 C09 C08 C07 C13 C12',10),
 (r'models/clpt_bardell_field','C04 C05 C10 C11',4),
 (r'connections/kC[SB].*pyx','C15 C14',4),
 (r'connections/kCpd','C11',3),
 (r'connections/.*py$','C15 C11',2),
 (r'stiffener/.*','C18 C04 C10',4),
 (r'stiffpanelbay/stiff.*','C18 C04 C10 C12 C20',6),
 (r'multidomain/multidomain\.py','C14 C15 C04 C05 C10 C17',8),
 (r'multidomain/(cyl|tst).*','C19 C20',4),
 (r'panels/shell\.py','C06 C07 C08 C09 C12 C04 C05 C10 C11 C13 C16 C17 C20',10),
 (r'shell_fext','C10 C11',4),
 (r'core/src/bardell_func','C01',1),(r'core/src/bardell\.cpp','C02',2),(r'core/src/legendre','C03',1),
 (r'(panels/bardell|legendre_gauss_quadrature)\.pyx','C01 C02 C03',1),
 (r'modelDB','C06 C07 C08 C12 C18',1),
]
PAIRS=[('m','n'),('a','b'),('i','k'),('j','l'),('x','y'),('xi','eta'),('row0','col0'),('nx','ny'),('x1','x2'),('y1','y2'),('p1','p2'),('pA','pB'),('kt','kr'),
 ('intx','inty'),('u','v'),('v','w'),('row_start','col_start'),('x1u','x2u'),('y1w','y2w'),('x1v','x2v'),('x1w','x1wr'),('y1u','y1ur'),('exx','eyy'),('kxx','kyy')]
def lines_of(f):
    """Lines with code, outside docstrings and comments."""
    t=open(f).read().split('\n')
    out=[];doc=None
    for i,l in enumerate(t):
        s=l.strip()
        if doc:
            if doc in s: doc=None
            continue
        if re.match(r'^[ruRU]*("""|\'\'\')',s):
            q=re.search(r'"""|\'\'\'',s).group()
            if s.count(q)==1: doc=q
            continue
        if not s or s[0]=='#' or s.startswith(('//','import','from','cimport','cdef','def ','class','return','msg(','raise','print','@','gc.')) or 'msg' in s: continue
        out.append((i,l))
    return t,out
def ops(l,rng):
    c=[]
    code=l.split('#')[0]
    for m in re.finditer(r'(?<=[\w\)\]] )?(\+|-)(?=[ \w\(])',code):
        if m.start() and code[m.start()-1] not in 'eE([=,+-*/' : c.append(code[:m.start()]+('-' if m.group(1)=='+' else '+')+code[m.end():])
    for m in re.finditer(r'(?<![\w.\'])(\d+\.?\d*)(?![\w.\'])',code):
        v=m.group(1)
        nv=str(int(v)+1) if v.isdigit() else str(float(v)*2)
        c.append(code[:m.start()]+nv+code[m.end():])
        if v.isdigit() and int(v)>0: c.append(code[:m.start()]+str(int(v)-1)+code[m.end():])
    for a,b in PAIRS:
        for x,y in((a,b),(b,a)):
            for m in re.finditer(r'(?<![\w\'])%s(?![\w\'])'%x,code): c.append(code[:m.start()]+y+code[m.end():])
    for m in re.finditer(r'\b(f|g|p)?([A-Z]?)([uvwABD])(\w*)\b',code):
        w=m.group()
        for x,y in(('xi','eta'),('u','v'),('v','w'),('A','B'),('11','12'),('12','22'),('16','26'),('66','16'),('Axi','Bxi'),('wxi','w'),('1','2'),('2','1')):
            if x in w:
                k=w.index(x); c.append(code[:m.start()]+w[:k]+y+w[k+len(x):]+code[m.end():])
    for x,y in((' == ',' != '),(' < ',' <= '),(' > ',' >= '),(' and ',' or '),('True','False'),('False','True'),(' is None',' is not None'),('is not None','is None'),(' or ',' and '),('*','/'),('max(','min(')):
        k=code.find(x)
        if k>=0 and rng.random()<.7: c.append(code[:k]+y+code[k+len(x):])
    return [x for x in c if x!=code]
def make(seed,rx):
    rng=random.Random(seed)
    fs=[]
    for top,d,files in os.walk(R+'/panels'):
        for f in files:
            p=os.path.join(top,f)
            if subprocess.run(['git','-C',R,'ls-files','--error-unmatch',p],capture_output=True).returncode: continue
            for r,props,w in MAP:
                if re.search(r,p) and re.search(rx,p): fs.append((p,props,w)); break
    fs.sort()
    while True:
        p,props,_=rng.choices(fs,[x[2] for x in fs])[0]
        t,ls=lines_of(p)
        if not ls: continue
        i,l=rng.choice(ls)
        c=ops(l,rng)
        if not c: continue
        new=rng.choice(c)
        return os.path.relpath(p,R),i,l,new,props.split()
def run(seed,rx):
    f,i,old,new,props=make(seed,rx)
    d='/tmp/mut/%d'%seed
    shutil.rmtree(d,True); os.makedirs(d)
    for x in('panels','setup.py','pyproject.toml','README.md','LICENSE','README.rst'):
        s=R+'/'+x
        if os.path.isdir(s): shutil.copytree(s,d+'/'+x,ignore=shutil.ignore_patterns('*.so','__pycache__'))
        elif os.path.exists(s): shutil.copy(s,d)
    t=open(d+'/'+f).read().split('\n'); assert t[i]==old; t[i]=new
    open(d+'/'+f,'w').write('\n'.join(t))
    if f.endswith('.pyx') and os.path.exists(d+'/'+f[:-4]+'.cpp'): os.remove(d+'/'+f[:-4]+'.cpp')
    e=dict(os.environ,VERIF_REPO=d,VERIF_SEED='1',VERIF_TIER='quick',VERIF_NOEVIDENCE='1')
    res='SURVIVED'; log=[]
    for p in props:
        try: r=subprocess.run(['/opt/venv/bin/python','harness/check.py',p],cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..'),env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=900)
        except subprocess.TimeoutExpired: log.append((p,'timeout')); res='TIMEOUT '+p; break
        if r.returncode==1 and 'VIOLATION' in r.stdout: res='caught '+p; break
        if r.returncode: 
            res='NOBUILD' if 'does not build' in r.stdout else 'rc%d %s'%(r.returncode,p); log.append(r.stdout[-600:]); break
    shutil.rmtree(d,True)
    x=dict(seed=seed,file=f,line=i+1,old=old.strip(),new=new.strip(),res=res,props=props,log=log)
    with open('/tmp/mut/results.jsonl','a') as o: o.write(json.dumps(x)+'\n')
if __name__=='__main__':
    many=list(map(int,sys.argv[1].split(','))); s0=many[0]
    n,w=map(int,sys.argv[2:4]); rx=sys.argv[4] if len(sys.argv)>4 else '.'
    os.makedirs('/tmp/mut',exist_ok=True)
    if w==0:
        for s in range(s0,s0+n): print(make(s,rx))
    else:
        with ThreadPoolExecutor(w) as ex: list(ex.map(lambda s:run(s,rx),many if len(many)>1 else range(s0,s0+n)))
