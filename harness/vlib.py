"""Machinery shared by the checks: build of the code under test in a scratch copy, TLC runs, replay driver."""
import atexit
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CP = '%s/tla2tools.jar:%s/CommunityModules-deps.jar' % (TLA, TLA)


class MachineryError(Exception):
    pass


_scratch = None


def scratch():
    """One scratch directory per run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='panels-check-')
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def env():
    e = {k: v for k, v in os.environ.items() if k in ('HOME', 'TMPDIR', 'VERIF_SEED', 'VERIF_TIER')}
    e.update(PATH='/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8',
             MPLBACKEND='Agg', MPLCONFIGDIR=os.path.join(scratch(), 'mpl'), PYTHONDONTWRITEBYTECODE='1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0')
    return e


# ---------------------------------------------------------------------------------------------- build

def source_files():
    """Files of the package as in the working tree, without build products."""
    out = []
    for top, dirs, files in os.walk(os.path.join(REPO, 'panels')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        names = set(files)
        for f in sorted(files):
            stem, ext = os.path.splitext(f)
            if ext in ('.so', '.pyc') or (ext in ('.cpp', '.c') and stem + '.pyx' in names):
                continue
            if f == 'version.py' and os.path.relpath(top, REPO) == 'panels':
                continue
            out.append(os.path.relpath(os.path.join(top, f), REPO))
    for f in ('setup.py', 'pyproject.toml', 'README.md', 'LICENSE'):
        if os.path.exists(os.path.join(REPO, f)):
            out.append(f)
    return out


def sha(path):
    with open(path, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


COMPILED = ('.pyx', '.pxd', '.pxi', '.h', '.hpp', '.c', '.cpp')


def build_key(files):
    h = hashlib.sha256()
    for f in files:
        if f in ('setup.py', 'pyproject.toml') or os.path.splitext(f)[1] in COMPILED:
            h.update(('%s %s\n' % (f, sha(os.path.join(REPO, f)))).encode())
    return h.hexdigest()[:32]


def stamped_products(files):
    """The extension modules already in the repository, if its build stamp (content hashes of every source and every
    product, written by its own build) still matches what is there."""
    try:
        want = {}
        for line in open(os.path.join(REPO, 'build', 'vp-stamp')):
            m = re.match(r'([0-9a-f]{64})  (\S+)$', line.strip())
            if m:
                want[m.group(2)] = m.group(1)
        if not want:
            return None
        for f in files:
            if f in ('setup.py', 'pyproject.toml') or os.path.splitext(f)[1] in COMPILED:
                if want.get(f) != sha(os.path.join(REPO, f)):
                    return None
        have = set(files)
        sos = []
        for f in want:
            if f.endswith('.so'):
                if sha(os.path.join(REPO, f)) != want[f]:
                    return None
                sos.append(f)
            elif f not in have and not (f.endswith('.cpp') and f[:-4] + '.pyx' in have):
                return None
        return sos or None
    except OSError:
        return None


SANITIZE = '-fsanitize=address -ftrivial-auto-var-init=pattern -O1 -g0 -w'


def sanitizer():
    """Libraries to load first."""
    libs = []
    for name in ('libasan.so', 'libstdc++.so'):
        r = subprocess.run(['gcc', '-print-file-name=' + name], stdout=subprocess.PIPE, text=True, env=env())
        libs.append(os.path.realpath(r.stdout.strip()))
        if r.returncode or not os.path.exists(libs[-1]):
            raise MachineryError('no %s for the sanitizer' % name)
    return ':'.join(libs)


BUILD = '''
import copy, os, sys, setuptools
from distutils.command.build_ext import build_ext
each = build_ext.build_extension
def build_extension(self, ext):
    own = copy.copy(self)
    own.build_temp = os.path.join(self.build_temp, ext.name)
    return each(own, ext)
build_ext.build_extension = build_extension
sys.argv[0] = 'setup.py'
sys.path.insert(0, os.getcwd())
exec(compile(open('setup.py').read(), 'setup.py', 'exec'), {'__name__': '__main__', '__file__': 'setup.py'})
'''

# every extension module there is, loaded with all its symbols resolved
LOAD = '''
import ctypes, os
for top, dirs, files in os.walk('panels'):
    for f in files:
        if f.endswith('.so'):
            ctypes.CDLL(os.path.join(os.getcwd(), top, f), mode=ctypes.RTLD_GLOBAL | os.RTLD_NOW)
'''


def build(sanitize=False):
    """Scratch copy of the package with extension modules made from the current sources; returns its directory.
    With sanitize, the extension modules report accesses outside allocations."""
    t0 = time.time()
    files = source_files()
    dst = os.path.join(scratch(), 'src-s' if sanitize else 'src')
    for f in files:
        os.makedirs(os.path.dirname(os.path.join(dst, f)), exist_ok=True)
        shutil.copyfile(os.path.join(REPO, f), os.path.join(dst, f))
    key = build_key(files) + ('-s' + hashlib.sha256(SANITIZE.encode()).hexdigest()[:8] if sanitize else '')
    store = os.path.join(CACHE, 'so', key)
    how = None
    if os.path.exists(os.path.join(store, 'done')):
        how = 'cache'
        for f in open(os.path.join(store, 'done')).read().split():
            shutil.copyfile(os.path.join(store, f.replace('/', '%')), os.path.join(dst, f))
    else:
        sos = None if sanitize else stamped_products(files)
        if sos and os.path.exists(os.path.join(REPO, 'panels', 'version.py')):
            how = 'repo stamp'
            for f in sos + ['panels/version.py']:
                shutil.copyfile(os.path.join(REPO, f), os.path.join(dst, f))
        else:
            how = 'compiled'
            e = env()
            cc = os.path.join(CACHE, 'ccache')
            try:
                os.makedirs(cc, exist_ok=True)
            except OSError:
                cc = os.path.join(scratch(), 'ccache')
            e.update(CCACHE_DIR=cc, CCACHE_BASEDIR=dst, CCACHE_NOHASHDIR='1', CYTHON_FORCE_REGEN='1')
            if sanitize:      # wrappers: the flags come last, whatever the build passes
                for var, name in (('CC', 'gcc'), ('CXX', 'g++')):
                    e[var] = os.path.join(scratch(), 's' + name)
                    with open(e[var], 'w') as f:
                        f.write('#!/bin/sh\nexec %s "$@" %s\n' % (name, SANITIZE))
                    os.chmod(e[var], 0o755)
            for jobs in ('8', '1'):
                # modules share sources: each gets its own directory for object files, else two jobs write the same one
                r = subprocess.run([PY, '-c', BUILD, 'build_ext', '--inplace', '--force', '-j', jobs], cwd=dst, env=e,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=700)
                if r.returncode == 0 and not sanitize:
                    r = subprocess.run([PY, '-c', LOAD], cwd=dst, env=env(), stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, timeout=300)
                if r.returncode == 0:
                    break
            if r.returncode:
                raise MachineryError('the code under test does not build\n' + r.stdout[-4000:])
        prods = ['panels/version.py']
        for top, dirs, fs in os.walk(os.path.join(dst, 'panels')):
            prods += [os.path.relpath(os.path.join(top, f), dst) for f in fs if f.endswith('.so')]
        try:
            tmp = tempfile.mkdtemp(dir=_mk(os.path.join(CACHE, 'so')))
            for f in prods:
                shutil.copyfile(os.path.join(dst, f), os.path.join(tmp, f.replace('/', '%')))
            with open(os.path.join(tmp, 'done'), 'w') as fo:
                fo.write('\n'.join(prods))
            os.rename(tmp, store)
            olds = sorted((os.path.getmtime(os.path.join(CACHE, 'so', d)), d) for d in os.listdir(os.path.join(CACHE, 'so')))
            for _, d in olds[:-40]:
                shutil.rmtree(os.path.join(CACHE, 'so', d), True)
        except OSError:
            pass
    log('build: %s, %.1f s' % (how, time.time() - t0))
    return dst


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def log(s):
    print('# ' + s, flush=True)


# ---------------------------------------------------------------------------------------------- TLC

def classes():
    src = sorted(os.path.join(VERIF, 'java', f) for f in os.listdir(os.path.join(VERIF, 'java')) if f.endswith('.java'))
    key = hashlib.sha256(''.join(sha(f) for f in src).encode()).hexdigest()[:20]
    dst = os.path.join(CACHE, 'java', key)
    if os.path.exists(os.path.join(dst, 'done')):
        return dst
    tmp = os.path.join(scratch(), 'java')
    os.makedirs(tmp, exist_ok=True)
    r = subprocess.run(['javac', '-nowarn', '-cp', CP, '-d', tmp] + src, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode:
        raise MachineryError('javac: ' + r.stdout)
    open(os.path.join(tmp, 'done'), 'w').close()
    try:
        _mk(os.path.dirname(dst))
        shutil.copytree(tmp, dst, dirs_exist_ok=True)
        return dst
    except OSError:
        return tmp


_n = [0]


def tlc(module, cfg_text, files=None, workers=8, args=(), timeout=800, heap='6g', simulate=None):
    """Run TLC on spec/<module>.tla with the given configuration; returns (stdout, stats)."""
    _n[0] += 1
    work = os.path.join(scratch(), 'tlc%d' % _n[0])
    os.makedirs(work)
    for f in os.listdir(os.path.join(VERIF, 'spec')):
        if f.endswith('.tla'):
            shutil.copyfile(os.path.join(VERIF, 'spec', f), os.path.join(work, f))
    with open(os.path.join(work, 'Rat.tla')) as f:
        text = f.read()
    with open(os.path.join(work, 'RatDef.tla'), 'w') as f:
        f.write(text.replace('MODULE Rat -', 'MODULE RatDef -'))
    with open(os.path.join(work, 'run.cfg'), 'w') as f:
        f.write(cfg_text)
    for name, src in (files or {}).items():
        if isinstance(src, str) and os.path.exists(src):
            os.link(src, os.path.join(work, name)) if os.stat(src).st_dev == os.stat(work).st_dev else shutil.copyfile(src, os.path.join(work, name))
        else:
            with open(os.path.join(work, name), 'w') as f:
                json.dump(src, f)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', classes() + ':' + CP,
           '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides', 'tlc2.TLC',
           '-config', 'run.cfg', '-workers', str(workers), '-noGenerateSpecTE', '-deadlock',
           '-metadir', os.path.join(work, 'meta')] + list(args) + [module + '.tla']
    t0 = time.time()
    out_path = os.path.join(work, 'out.txt')
    with open(out_path, 'w') as fo:
        try:
            r = subprocess.run(cmd, cwd=work, stdout=fo, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC on %s exceeded %d s' % (module, timeout))
    out = open(out_path, errors='replace').read()
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    st = dict(generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0, wall=time.time() - t0,
              rc=r.returncode)
    if r.returncode != 0:
        raise MachineryError('TLC on %s ended with %d\n%s' % (module, r.returncode, out[-6000:]))
    log('tlc %s: %d distinct states, %.1f s' % (module, st['distinct'], st['wall']))
    return out, st


def tlc_json(out, tag):
    """Values printed as PrintT(<<tag, ToJson(x)>>)."""
    res = []
    pat = '<<"%s", "' % tag
    for line in out.splitlines():
        if line.startswith(pat) and line.endswith('">>'):
            body = line[len(pat) - 1:-2]
            res.append(json.loads(json.loads(body)))
    return res


# ---------------------------------------------------------------------------------------------- replay

def replay(src, traces, workers=8, timeout=120, sanitize=False):
    """Run every trace on the code built in src; returns the traces with what was observed."""
    t0 = time.time()
    d = os.path.join(scratch(), 'replay%d' % _n[0])
    _n[0] += 1
    os.makedirs(d)
    inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
    with open(inp, 'w') as f:
        json.dump(traces, f)
    e = env()
    e['PYTHONPATH'] = src
    logs = os.path.join(d, 'mem') if sanitize else '-'
    if sanitize:
        e.update(LD_PRELOAD=sanitizer(), ASAN_OPTIONS='detect_leaks=0:exitcode=77:log_path=%s:allocator_may_return_null=1:'
                 'malloc_fill_byte=127:max_malloc_fill_size=1073741824' % logs, VERIF_FILL='1')
    r = subprocess.run([PY, os.path.join(VERIF, 'harness', 'driver.py'), inp, outp, str(workers), str(timeout), src, logs],
                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise MachineryError('driver ended with %d\n%s' % (r.returncode, r.stdout[-4000:]))
    with open(outp) as f:
        res = json.load(f)
    log('replay: %d traces, %d calls, %.1f s' % (len(res), sum(len(t['ev']) for t in res), time.time() - t0))
    return res
