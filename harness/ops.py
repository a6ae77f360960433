"""The calls of the behaviours, made through the public interface of the package under test."""
import json
import os
import shutil
import zlib
from fractions import Fraction

import numpy as np


class Skip(Exception):
    """The call is not made (what it needs is not there)."""


class Ctx:
    def __init__(self):
        self.shells = {}
        self.conns = {}
        self.asms = {}
        self.bays = {}


OPS = {}


def op(f):
    OPS[f.__name__[3:]] = f
    return f


# The same value can be handed over in different ways (layout and type of arrays, arguments left out that equal their documented
# default); the event decides by its checksum.
STYLE = 0


def style(e):
    global STYLE
    STYLE = zlib.crc32(json.dumps(e, sort_keys=True).encode()) >> 4


def lay(x, k, lists=False):
    """The array x in another layout or type."""
    if x is None:
        return None
    q = (STYLE // 7**k) % 7
    if q == 1:
        return np.asfortranarray(x)
    if q == 2:
        big_ = np.full(tuple(2 * t + 1 for t in x.shape), 1e300)
        v = big_[tuple(slice(1, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    if q == 3:
        y = x.astype(np.float32)
        return y if (y.astype(float) == x).all() else x
    if q == 4 and lists:
        return x.tolist()
    if q == 5:
        return np.ascontiguousarray(x[::-1])[::-1]
    return x


DEFAULTS = dict(finalize=True, row0=0, col0=0, cte=True, inc=1., u=True, v=True, w=True, phix=False, phiy=False, kuvw=1e6, kphi=1e5,
                c=None, c_cte=None, ABDnxny=None, ABD=None, h_nxny=None, rho_nxny=None)


def short(args, **more):
    """The arguments, half of the time without the ones that are the documented defaults anyway."""
    kw = dict(args)
    if STYLE % 2:
        for k, v in list(kw.items()):
            if k in more or k in DEFAULTS:
                d = more.get(k, DEFAULTS.get(k))
                if v is d or (isinstance(v, (int, float)) and v == d):
                    del kw[k]
    return kw


def fl(t):
    """The double nearest to a number text."""
    return float(Fraction(t)) if isinstance(t, str) else float(t)


def num(x):
    return repr(float(x))


def nums(v):
    return [num(x) for x in np.asarray(v, dtype=float).ravel()]


# ------------------------------------------------------------------------------------- one-dimensional kernels

@op
def op_basis(ctx, e):
    from panels import bardell as B
    flg = [fl(t) for t in e['fl']]
    one, vec = [], []
    for d in range(3):
        f1 = (B.calc_f, B.calc_fp, B.calc_fpp)[d]
        fv = (B.calc_vec_f, B.calc_vec_fp, B.calc_vec_fpp)[d]
        one.append([[num(f1(i, fl(x), *flg)) for i in range(30)] for x in e['xs']])
        vec.append([nums(fv(fl(x), *flg)) for x in e['xs']])
    return dict(one=one, vec=vec)


@op
def op_integrals(ctx, e):
    from panels import bardell as B
    fa, fb = [fl(t) for t in e['fa']], [fl(t) for t in e['fb']]
    f = getattr(B, 'calc_integral_' + e['kind'])
    return dict(val=[[num(f(i, j, *fa, *fb)) for j in range(30)] for i in range(30)])


@op
def op_rule(ctx, e):
    from panels.legendre_gauss_quadrature import get_points_weights
    n = e['n']
    # guard cells around the arrays of the caller
    p, w = np.full(n + 2, 7.), np.full(n + 2, 7.)
    get_points_weights(n, p[1:-1], w[1:-1])
    return dict(points=nums(p[1:-1]), weights=nums(w[1:-1]), guards=bool((p[[0, -1]] == 7).all() and (w[[0, -1]] == 7).all()))


# ------------------------------------------------------------------------------------- shells

DEG = {'0': 0., '90': 90., '45': 45., '-45': -45.}
for _n, _c, _s in (('345', 4, 3), ('512', 12, 5)):
    DEG['p' + _n] = float(np.degrees(np.arctan2(_s, _c)))
    DEG['-p' + _n] = -DEG['p' + _n]
DEG['q345'] = float(np.degrees(np.arctan2(4, 3)))
FLAGS = [[ax + '1' + d, ax + '1' + d + 'r', ax + '2' + d, ax + '2' + d + 'r'] for d in 'uvw' for ax in 'xy']


def opt(t):
    return None if t == '' else fl(t)


def attributes(d):
    """Attributes of the shell of a definition record."""
    at = dict(a=fl(d['a']), b=fl(d['b']), r=opt(d['r']), m=d['m'], n=d['n'],
              stack=[DEG[x] for x in d['stack']], plyt=opt(d['plyt']),
              laminaprop=tuple(fl(x) for x in d['prop']) if d['prop'] else None,
              rho=fl(d['rho']) if d['rho'] != '' else 0, offset=fl(d['offset']))
    if d['plyts']:
        at['plyts'] = [fl(x) for x in d['plyts']]
    if d['props']:
        at['laminaprops'] = [tuple(fl(y) for y in x) for x in d['props']]
    if d['rhos']:
        at['rhos'] = [fl(x) for x in d['rhos']]
    if d['ortho']:
        at['force_orthotropic_laminate'] = True
    for names, vals in zip(FLAGS, d['fl']):
        for k, v in zip(names, vals):
            at[k] = fl(v)
    for k, v in zip(('x1', 'x2', 'y1', 'y2'), d['sub']):
        if v != '':
            at[k] = fl(v)
    for k, v in zip(('Nxx', 'Nyy', 'Nxy'), d['N']):
        at[k] = fl(v)
    for k, v in zip(('Nxx_cte', 'Nyy_cte', 'Nxy_cte'), d['Nc']):
        at[k] = fl(v)
    if d['nx']:
        at['nx'] = d['nx']
    if d['ny']:
        at['ny'] = d['ny']
    at['flow'] = d['flow']
    for k in ('beta', 'gamma', 'rho_air', 'V', 'Mach'):
        if d[k] != '':
            at[k] = fl(d[k])
    if d['group']:
        at['group'] = d['group']
    if 'at' in d:
        at['x0'], at['y0'] = opt(d['at'][0]), opt(d['at'][1])
    if STYLE % 3 == 1:      # numbers of another type
        for k, v in at.items():
            if type(v) is float:
                at[k] = int(v) if v == int(v) and STYLE % 2 else np.float64(v)
            elif type(v) is int and STYLE % 5 == 1:
                at[k] = np.int64(v)
    return at


# Documented values of what is not given.
SHELL_DEFAULT = dict({a: 1. if a.endswith('r') else 0. for names in FLAGS for a in names}, r=None, rho=0, offset=0., flow='x', m=11, n=11,
                     Nxx=0., Nyy=0., Nxy=0., Nxx_cte=0., Nyy_cte=0., Nxy_cte=0.)
BAY_DEFAULT = dict({a: 1. if a[2:] == 'wr' else 0. for names in FLAGS for a in names}, flow='x', r=None, m=11, n=12, rho=None)


def left_out(at, defaults):
    """Half of the time without what has its documented value anyway."""
    if STYLE % 2 == 0:
        return at
    return {k: v for k, v in at.items() if not (k in defaults and (v is defaults[k] or v == defaults[k]))}


CTOR = ('a', 'b', 'r', 'stack', 'plyt', 'laminaprop', 'rho', 'm', 'n', 'offset')


def make_shell(d):
    from panels import Shell
    at = left_out(attributes(d), SHELL_DEFAULT)
    s = Shell(**{k: at.pop(k) for k in CTOR if k in at})
    for k, v in at.items():
        setattr(s, k, v)
    for ld in d['loads']:
        add_load(s, ld)
    return s


class Poly:
    """Function of one coordinate by its coefficients; an object, so that shells with loads can be saved."""
    def __init__(self, c):
        self.c = [fl(t) for t in c]

    def __call__(self, x):
        r = 0.
        for t in reversed(self.c):
            r = r * x + t
        return r


def add_load(s, ld):
    f = ld['f']
    if ld['via'] == 'load':
        if ld['kind'] == 'point':
            s.add_point_load(fl(ld['x']), fl(ld['y']), *[fl(t) for t in f], **short(dict(cte=ld['cte'])))
        else:
            fs = [Poly(t) if t else None for t in f]
            if ld['kind'] == 'linex':
                s.add_distr_load_fixed_x(fl(ld['x']), *fs, **short(dict(cte=ld['cte'])))
            else:
                s.add_distr_load_fixed_y(fl(ld['y']), *fs, **short(dict(cte=ld['cte'])))
    else:
        k = [fl(t) for t in ld['pk']]
        if ld['kind'] == 'point':
            s.add_point_pd(fl(ld['x']), fl(ld['y']), k[0], fl(f[0]), k[1], fl(f[1]), k[2], fl(f[2]), **short(dict(cte=ld['cte'])))
        else:
            fs = [Poly(t) if t else None for t in f]
            k = [x if g is not None else None for x, g in zip(k, fs)]
            kw = short(dict(ku=k[0], kv=k[1], kw=k[2], funcu=fs[0], funcv=fs[1], funcw=fs[2], cte=ld['cte']),
                       ku=None, kv=None, kw=None, funcu=None, funcv=None, funcw=None)
            if ld['kind'] == 'linex':
                s.add_distr_pd_fixed_x(fl(ld['x']), **kw)
            else:
                s.add_distr_pd_fixed_y(fl(ld['y']), **kw)


def vec(v, n):
    k = np.arange(n)
    if v['k'] == 'lcg':
        b, c, d = v['p']
        h = (b * (k % 251)**2 + c * k + d) % 1009
        return fl(v['s']) * ((h % 17) - 8) / 8.
    x = np.zeros(n)
    if v['k'] == 'unit':
        x[v['p'][0]] = fl(v['s'])
    return x


DEFINING = [a for names in FLAGS for a in names] + [
    'a', 'b', 'm', 'n', 'x1', 'x2', 'y1', 'y2', 'stack', 'plyt', 'laminaprop', 'rho', 'offset', 'Nxx', 'Nyy', 'Nxy',
    'Nxx_cte', 'Nyy_cte', 'Nxy_cte', 'flow', 'beta', 'gamma', 'rho_air', 'speed_sound', 'Mach', 'V',
    'force_orthotropic_laminate', 'name', 'group', 'aeromu']
LOADS = ['point_loads', 'point_loads_inc', 'distr_loads', 'distr_loads_inc', 'point_pds', 'point_pds_inc', 'distr_pds',
         'distr_pds_inc']


def frozen(s):
    """What the user defined, as a comparable value."""
    d = {k: repr(getattr(s, k)) for k in DEFINING}
    d['r'] = repr(getattr(s, 'r') or 0.)
    for k in LOADS:
        d[k] = [(id(x), [y if isinstance(y, float) else id(y) for y in x]) for x in getattr(s, k)]
    return d


def frozen_conn(c):
    return [sorted((k, v if isinstance(v, (int, float, str)) else id(v)) for k, v in x.items()) for x in c]


def frozen_asm(a):
    return [id(p) for p in a.panels], id(a.conn)


BAY = [a for names in FLAGS for a in names] + ['a', 'b', 'r', 'm', 'n', 'stack', 'plyt', 'plyts', 'laminaprop', 'laminaprops', 'rho',
       'forces_skin', 'flow', 'beta', 'gamma', 'aeromu', 'rho_air', 'speed_sound', 'Mach', 'V']
STIFF = ['ys', 'bb', 'rho', 'bstack', 'bplyts', 'blaminaprops', 'forces_flange', 'Fx']
AERO = ['flow', 'beta', 'gamma', 'rho_air', 'speed_sound', 'Mach', 'V']


def frozen_bay(b):
    # the panels of a bay take the airflow from the bay
    return (repr([getattr(b, k) for k in BAY]), [id(p) for p in b.panels], [id(s) for s in b.stiffeners],
            [{k: v for k, v in frozen(p).items() if k not in AERO} for p in b.panels],
            [repr([getattr(s, k, None) for k in STIFF]) for s in b.stiffeners],
            [frozen(s.flange) for s in b.bladestiff2ds if s.flange is not None])


class Guard:
    """Arrays given to a call and the shells of the context must come out unchanged; what changed is in .mut"""
    def __init__(self, ctx, **arrays):
        self.ctx = ctx
        self.arrays = arrays
        self.before = {k: (None if v is None else np.array(v, copy=True)) for k, v in arrays.items()}
        self.shells = {k: (s, frozen(s)) for k, s in ctx.shells.items()}
        self.conns = {k: (c, frozen_conn(c)) for k, c in ctx.conns.items()}
        self.asms = {k: (a, frozen_asm(a)) for k, a in ctx.asms.items()}
        self.bays = {k: (a, frozen_bay(a)) for k, a in ctx.bays.items()}

    def mut(self):
        out = []
        for k, v in self.arrays.items():
            if v is not None and not (np.shape(v) == self.before[k].shape and np.array_equal(np.asarray(v), self.before[k], equal_nan=True)):
                out.append(k)
        for k, (s, f) in self.shells.items():
            now = frozen(s)
            out += [k + '.' + a for a in f if f[a] != now[a]]
        out += ['connections ' + k for k, (c, f) in self.conns.items() if frozen_conn(c) != f]
        out += ['assembly ' + k for k, (a, f) in self.asms.items() if frozen_asm(a) != f]
        out += ['bay ' + k for k, (a, f) in self.bays.items() if frozen_bay(a) != f]
        return sorted(out)


def big(x):
    x = np.asarray(x)
    return num(np.abs(x).max()) if x.size else '0'


def matrix_obs(K, vecs, num_, row0, col0, finalize=True):
    """Observation of a (sparse) matrix: see MatrixClauses."""
    from structsolve.sparseutils import finalize_symmetric_matrix
    if not finalize:
        K = finalize_symmetric_matrix(K)
    K = K.toarray() if hasattr(K, 'toarray') else np.asarray(K)
    shape = list(K.shape)
    if not np.isfinite(K).all():
        return dict(shape=shape, finite=False, asym='0', out='0', big='0', forms=[])
    asym = big(K - K.T) if K.shape[0] == K.shape[1] else '1'
    blk = K[row0:row0 + num_, col0:col0 + num_]
    rest = np.array(K)
    rest[row0:row0 + num_, col0:col0 + num_] = 0
    o = dict(shape=shape, finite=True, asym=asym, out=big(rest), big=big(K), forms=[])
    if blk.shape == (num_, num_):
        V = [vec(v, num_) for v in vecs]
        o['forms'] = [[num(u @ blk @ v) for v in V] for u in V]
    else:
        o['shape'] = [-1, -1]
    return o


def vector_obs(f, vecs, num_, col0):
    f = np.asarray(f, dtype=float)
    if f.ndim != 1 or not np.isfinite(f).all():
        return dict(shape=list(f.shape), finite=False, out='0', forms=[])
    rest = np.array(f)
    rest[col0:col0 + num_] = 0
    o = dict(shape=list(f.shape), finite=True, out=big(rest), forms=[])
    blk = f[col0:col0 + num_]
    if blk.shape == (num_,):
        o['forms'] = [num(vec(v, num_) @ blk) for v in vecs]
    else:
        o['shape'] = [-1]
    return o


def num_of(s):
    return 3 * s.m * s.n


def size_kw(s, e):
    """Size of the matrix asked for: not given, an integer, or an increment in a text."""
    if e['size'] == 'none':
        return {}, num_of(s) + e['pad']
    n = num_of(s) + e['pad']
    return dict(size=n if e['size'] == 'int' else '+%d' % e['pad']), n


def state(c, n):
    return None if c['k'] == 'none' else lay(vec(c, n), 1)


def laminate_ABD(d):
    from composites import laminated_plate
    n = len(d['stack'])
    return np.array(laminated_plate(stack=[DEG[x] for x in d['stack']], plyts=[fl(x) for x in d['plyts']],
                                    laminaprops=[tuple(fl(y) for y in x) for x in d['props']],
                                    rhos=[fl(x) for x in d['rhos']], offset=fl(d['off'])).ABD)


def poly2(w, x, y):
    w = np.array([[fl(t) for t in row] for row in w])
    return np.polynomial.polynomial.polyval2d(x, y, w)


def gauss_grid(s, nx, ny):
    """Natural coordinates of the integration points, over the part of the domain that is integrated."""
    xi, eta = np.polynomial.legendre.leggauss(nx)[0], np.polynomial.legendre.leggauss(ny)[0]
    if s.x1 != -1 and s.x2 != -1:
        p, q = 2 * s.x1 / s.a - 1, 2 * s.x2 / s.a - 1
        xi = (q - p) / 2 * xi + (q + p) / 2
    if s.y1 != -1 and s.y2 != -1:
        p, q = 2 * s.y1 / s.b - 1, 2 * s.y2 / s.b - 1
        eta = (q - p) / 2 * eta + (q + p) / 2
    return np.meshgrid(xi, eta, indexing='ij')


def varying(s, e):
    """4-D stiffness at the integration points for the weights and laminates of the event."""
    if not e['var']:
        return None
    nx, ny = e['nx'] or s.nx, e['ny'] or s.ny
    X, Y = gauss_grid(s, nx, ny)
    out = np.zeros((nx, ny, 6, 6))
    for t in e['var']:
        out += poly2(t['w'], X, Y)[:, :, None, None] * laminate_ABD(t['lam'])
    if STYLE % 3 and np.array_equal(out, np.broadcast_to(out[0, 0], out.shape)):
        return lay(np.array(out[0, 0]), 2, True)      # the same everywhere
    return lay(out, 2, True)


def order_kw(e):
    kw = {}
    if e['nx']:
        kw['nx'] = e['nx']
    if e['ny']:
        kw['ny'] = e['ny']
    return kw


@op
def op_shell(ctx, e):
    ctx.shells[e['s']] = make_shell(e['def'])
    return {}


@op
def op_set(ctx, e):
    """Assign one field of the definition."""
    s = ctx.shells[e['s']]
    v, k = e['val'], e['attr']
    if k == 'stack':
        s.stack = [DEG[x] for x in v]
    elif k == 'prop':
        s.laminaprop = tuple(fl(x) for x in v) or None
    elif k == 'props':
        s.laminaprops = [tuple(fl(y) for y in x) for x in v] or None
    elif k in ('plyts', 'rhos'):
        setattr(s, k, [fl(x) for x in v] or None)
    elif k == 'ortho':
        s.force_orthotropic_laminate = v
    elif k == 'fl':
        for names, vals in zip(FLAGS, v):
            for a, t in zip(names, vals):
                setattr(s, a, fl(t))
    elif k == 'sub':
        for a, t, default in zip(('x1', 'x2', 'y1', 'y2'), v, (-1, 1, -1, 1)):
            setattr(s, a, fl(t) if t != '' else default)
    elif k in ('N', 'Nc'):
        for a, t in zip(('Nxx', 'Nyy', 'Nxy'), v):
            setattr(s, a + ('_cte' if k == 'Nc' else ''), fl(t))
    elif k in ('m', 'n', 'nx', 'ny', 'flow', 'group'):
        setattr(s, k, v)
    else:
        setattr(s, k, opt(v))
    return {}


@op
def op_load(ctx, e):
    add_load(ctx.shells[e['s']], e['ld'])
    return {}


@op
def op_size(ctx, e):
    g = Guard(ctx)
    n = ctx.shells[e['s']].get_size()
    return dict(size=int(n), mut=g.mut())


def matrix_call(ctx, e, call):
    s = ctx.shells[e['s']]
    kw, n = size_kw(s, e)
    kw.update(row0=e['row0'], col0=e['col0'], finalize=e['fin'])
    return s, kw, n


@op
def op_kC(ctx, e):
    s, kw, n = matrix_call(ctx, e, 'kC')
    kw.update(order_kw(e))
    c, cc, var = state(e['c'], n), state(e['cc'], n), varying(s, e)
    g = Guard(ctx, c=c, cc=cc, var=var)
    K = s.calc_kC(**short(dict(kw, c=c, c_cte=cc, ABDnxny=var, NLgeom=e['NL']), NLgeom=False))
    return dict(matrix_obs(K, e['vecs'], num_of(s), e['row0'], e['col0'], e['fin']), mut=g.mut())


@op
def op_kG(ctx, e):
    s, kw, n = matrix_call(ctx, e, 'kG')
    kw.update(order_kw(e))
    c, var = state(e['c'], n), varying(s, e)
    g = Guard(ctx, c=c, var=var)
    K = s.calc_kG(**short(dict(kw, c=c, ABDnxny=var, NLgeom=e['NL']), NLgeom=False))
    return dict(matrix_obs(K, e['vecs'], num_of(s), e['row0'], e['col0'], e['fin']), mut=g.mut())


@op
def op_kT(ctx, e):
    s, kw, n = matrix_call(ctx, e, 'kT')
    kw.update(order_kw(e))
    c, var = state(e['c'], n), varying(s, e)
    g = Guard(ctx, c=c, var=var)
    K = s.calc_kT(**short(dict(kw, c=c, ABDnxny=var)))
    return dict(matrix_obs(K, e['vecs'], num_of(s), e['row0'], e['col0'], e['fin']), mut=g.mut())


@op
def op_kM(ctx, e):
    s, kw, n = matrix_call(ctx, e, 'kM')
    kw.update(order_kw(e))
    h = rho = None
    if e['h'] or e['rho']:
        X, Y = gauss_grid(s, e['nx'] or s.nx, e['ny'] or s.ny)
        h = lay(poly2(e['h'], X, Y), 2) if e['h'] else None
        rho = lay(poly2(e['rho'], X, Y), 3) if e['rho'] else None
    g = Guard(ctx, h=h, rho=rho)
    K = s.calc_kM(**short(dict(kw, h_nxny=h, rho_nxny=rho)))
    return dict(matrix_obs(K, e['vecs'], num_of(s), e['row0'], e['col0'], e['fin']), mut=g.mut())


@op
def op_kA(ctx, e):
    s, kw, n = matrix_call(ctx, e, 'kA')
    g = Guard(ctx)
    K = s.calc_kA(**short(kw))
    return dict(matrix_obs(K, e['vecs'], num_of(s), e['row0'], e['col0']), mut=g.mut())


@op
def op_cA(ctx, e):
    s = ctx.shells[e['s']]
    kw, n = size_kw(s, e)
    g = Guard(ctx)
    K = s.calc_cA(fl(e['aeromu']), **short(dict(kw, finalize=e['fin'])))
    re, im = K.real, K.imag
    o = matrix_obs(im, e['vecs'], num_of(s), 0, 0, e['fin'])
    return dict(o, real=big(re.toarray()), mut=g.mut())


@op
def op_fint(ctx, e):
    s = ctx.shells[e['s']]
    kw, n = size_kw(s, e)
    kw.update(order_kw(e))
    c, var = state(e['c'], n), varying(s, e)
    g = Guard(ctx, c=c, var=var)
    f = s.calc_fint(c, **short(dict(kw, col0=e['col0'], ABDnxny=var)))
    return dict(vector_obs(f, e['vecs'], num_of(s), e['col0']), mut=g.mut())


@op
def op_fext(ctx, e):
    s = ctx.shells[e['s']]
    kw, n = size_kw(s, e)
    if e['inc'] != '':
        kw['inc'] = fl(e['inc'])
    g = Guard(ctx)
    f = s.calc_fext(**short(dict(kw, col0=e['col0'])))
    return dict(vector_obs(f, e['vecs'], num_of(s), e['col0']), mut=g.mut())


@op
def op_kPC(ctx, e):
    s = ctx.shells[e['s']]
    g = Guard(ctx)
    on = e['on']
    K = s.calc_stiffness_point_constraint(fl(e['x']), fl(e['y']), **short(dict(
        u=on[0], v=on[1], w=on[2], phix=on[3], phiy=on[4], kuvw=fl(e['kuvw']), kphi=fl(e['kphi']))))
    return dict(matrix_obs(K, e['vecs'], num_of(s), 0, 0), mut=g.mut())


def points_kw(e):
    if not e['pts']:
        return dict(gridx=e['gridx'], gridy=e['gridy']), None, None
    xs = np.array([fl(p[0]) for p in e['pts']]).reshape(e['shape'])
    ys = np.array([fl(p[1]) for p in e['pts']]).reshape(e['shape'])
    xs, ys = lay(xs, 2, True), lay(ys, 3, True)
    return dict(xs=xs, ys=ys), xs, ys


def field_obs(mesh, fields, names):
    sh = set(np.shape(fields[k]) for k in names) | set([np.shape(mesh['Xs']), np.shape(mesh['Ys'])])
    if len(sh) != 1:
        return dict(shape=[-1], xs=[], ys=[], vals=[])
    return dict(shape=list(sh.pop()), xs=nums(mesh['Xs']), ys=nums(mesh['Ys']), vals=[nums(fields[k]) for k in names])


UVW = ['u', 'v', 'w', 'phix', 'phiy']
STRAINS = ['exx', 'eyy', 'gxy', 'kxx', 'kyy', 'kxy']
STRESSES = ['Nxx', 'Nyy', 'Nxy', 'Mxx', 'Myy', 'Mxy']


def field_call(ctx, e, names):
    s = ctx.shells[e['s']]
    if e['cores']:
        s.out_num_cores = e['cores']
    kw, xs, ys = points_kw(e)
    c = state(e['c'], num_of(s))
    ABD = None
    if e['op'] != 'uvw':
        kw['NLgeom'] = e['NL']
    if e['op'] == 'stress' and e['var']:
        ABD = kw['ABD'] = fl(e['var'][0]['w'][0][0]) * laminate_ABD(e['var'][0]['lam'])
    g = Guard(ctx, c=c, xs=xs, ys=ys, ABD=ABD)
    mesh, fields = getattr(s, e['op'])(c, **short(kw, NLgeom=True))
    return dict(field_obs(mesh, fields, names), mut=g.mut())


@op
def op_uvw(ctx, e):
    return field_call(ctx, e, UVW)


@op
def op_strain(ctx, e):
    return field_call(ctx, e, STRAINS)


@op
def op_stress(ctx, e):
    return field_call(ctx, e, STRESSES)


# ------------------------------------------------------------------------------------- assemblies

def make_conn(ctx, x):
    axis = 'x' if x['func'].endswith('xcte') else 'y'
    d = dict(p1=ctx.shells[x['p1']], p2=ctx.shells[x['p2']], func=x['func'])
    if x['func'][:2] in ('SS', 'BF'):
        d[axis + 'cte1'], d[axis + 'cte2'] = fl(x['c1']), fl(x['c2'])
    if x['func'] == 'SB_TSL':
        d['tsl_type'] = x['tsl']
    return d


@op
def op_conns(ctx, e):
    ctx.conns[e['k']] = [make_conn(ctx, x) for x in e['list']]
    return {}


@op
def op_asm(ctx, e):
    from panels.multidomain import MultiDomain
    ctx.asms[e['A']] = MultiDomain([ctx.shells[k] for k in e['panels']], conn=ctx.conns[e['conn']] if e['conn'] else None)
    return {}


def asm_size(a):
    return sum(num_of(p) for p in a.panels)


def conn_kw(ctx, e):
    return dict(conn=ctx.conns[e['conn']]) if e['conn'] else {}


@op
def op_aKC(ctx, e):
    a = ctx.asms[e['A']]
    n = asm_size(a)
    c = state(e['c'], n)
    g = Guard(ctx, c=c)
    K = a.calc_kC(silent=True, **short(dict(conn_kw(ctx, e), c=c, finalize=e['fin'], NLgeom=e['NL']), NLgeom=False))
    return dict(matrix_obs(K, e['vecs'], n, 0, 0, e['fin']), mut=g.mut())


@op
def op_aConn(ctx, e):
    a = ctx.asms[e['A']]
    g = Guard(ctx)
    K = a.get_kC_conn(**short(dict(conn_kw(ctx, e), finalize=e['fin'])))
    return dict(matrix_obs(K, e['vecs'], asm_size(a), 0, 0, e['fin']), mut=g.mut())


@op
def op_aKG(ctx, e):
    a = ctx.asms[e['A']]
    n = asm_size(a)
    c = state(e['c'], n)
    g = Guard(ctx, c=c)
    K = a.calc_kG(silent=True, **short(dict(c=c, finalize=e['fin'], NLgeom=e['NL']), NLgeom=False))
    return dict(matrix_obs(K, e['vecs'], n, 0, 0, e['fin']), mut=g.mut())


@op
def op_aKM(ctx, e):
    a = ctx.asms[e['A']]
    g = Guard(ctx)
    K = a.calc_kM(silent=True, **short(dict(finalize=e['fin'])))
    return dict(matrix_obs(K, e['vecs'], asm_size(a), 0, 0, e['fin']), mut=g.mut())


@op
def op_aKT(ctx, e):
    a = ctx.asms[e['A']]
    n = asm_size(a)
    c = state(e['c'], n)
    g = Guard(ctx, c=c)
    K = a.calc_kT(silent=True, **short(dict(c=c, finalize=e['fin'])))
    return dict(matrix_obs(K, e['vecs'], n, 0, 0, e['fin']), mut=g.mut())


@op
def op_aFint(ctx, e):
    a = ctx.asms[e['A']]
    n = asm_size(a)
    c = state(e['c'], n)
    g = Guard(ctx, c=c)
    f = a.calc_fint(c, silent=True)
    return dict(vector_obs(f, e['vecs'], n, 0), mut=g.mut())


@op
def op_aFext(ctx, e):
    a = ctx.asms[e['A']]
    kw = dict(inc=fl(e['inc'])) if e['inc'] != '' else {}
    g = Guard(ctx)
    f = a.calc_fext(silent=True, **kw)
    return dict(vector_obs(f, e['vecs'], asm_size(a), 0), mut=g.mut())


@op
def op_aSize(ctx, e):
    a = ctx.asms[e['A']]
    g = Guard(ctx)
    n = int(a.get_size())
    return dict(size=n, rows=[[int(p.row_start), int(p.row_end)] for p in a.panels],
                cols=[[int(p.col_start), int(p.col_end)] for p in a.panels], mut=g.mut())


@op
def op_aField(ctx, e):
    a = ctx.asms[e['A']]
    a.out_num_cores = e['cores'] or 4
    c = state(e['c'], asm_size(a))
    names = dict(uvw=UVW, strain=STRAINS, stress=STRESSES)[e['what']]
    kw = {} if e['what'] == 'uvw' else dict(NLterms=e['NL'])
    if e['gauss']:
        xg, yg = (np.array([fl(t) for t in e[k]]) if e[k] else None for k in ('xg', 'yg'))
        g = Guard(ctx, c=c, xg=xg, yg=yg)
        r = getattr(a, e['what'] + '_gauss_points')(c, e['group'], xg, yg, **short(kw, NLterms=True))
    else:
        g = Guard(ctx, c=c)
        r = getattr(a, e['what'])(c, e['group'], gridx=e['gridx'], gridy=e['gridy'], **short(kw, NLterms=True))
    n = len(r['x'])
    if any(len(r[k]) != n for k in ['y'] + names):
        return dict(doms=[], mut=g.mut())
    doms = [field_obs(dict(Xs=r['x'][i], Ys=r['y'][i]), {k: r[k][i] for k in names}, names) for i in range(n)]
    return dict(doms=doms, mut=g.mut())


@op
def op_aPlot(ctx, e):
    a = ctx.asms[e['A']]
    c = state(e['c'], asm_size(a))
    kw = dict(gridx=e['gridx'], gridy=e['gridy'])
    if e['gauss']:
        kw = dict(use_gauss_points=True, **{k: np.array([fl(t) for t in e[v]]) if e[v] else None
                                            for k, v in (('x_gauss', 'xg'), ('y_gauss', 'yg'))})
    g = Guard(ctx, c=c)
    _, d = a.plot(c, e['group'], vec=e['vec'], calc_data_only=True, **kw)
    return dict(min=num(d['vecmin']), max=num(d['vecmax']), mut=g.mut())


@op
def op_kPd(ctx, e):
    from panels.multidomain import connections
    s = ctx.shells[e['s']]
    n = num_of(s) + e['pad']
    k = [fl(t) for t in e['ks']]
    g = Guard(ctx)
    if e['kind'] == 'point':
        K = connections.fkCpd(*k, s, fl(e['x']), fl(e['y']), n, e['row0'], e['col0'])
    elif e['kind'] == 'linex':
        K = connections.fkCld_xcte(*k, s, fl(e['x']), n, e['row0'], e['col0'])
    else:
        K = connections.fkCld_ycte(*k, s, fl(e['y']), n, e['row0'], e['col0'])
    return dict(matrix_obs(K, e['vecs'], num_of(s), e['row0'], e['col0'], False), mut=g.mut())


@op
def op_pdk(ctx, e):
    from panels.multidomain import connections
    s = ctx.shells[e['s']]
    s._rebuild()
    g = Guard(ctx)
    f = dict(point=connections.calc_ku_kv_kw_point_pd, linex=connections.calc_ku_kv_kw_line_pd_xcte,
             liney=connections.calc_ku_kv_kw_line_pd_ycte)[e['kind']]
    return dict(k=nums(f(s)), mut=g.mut())


@op
def op_penalty(ctx, e):
    from panels.multidomain import connections
    g = Guard(ctx)
    k = connections.calc_kt_kr(ctx.shells[e['s']], ctx.shells[e['s2']], e['kind'])
    return dict(k=nums([x for x in k if x is not None]), mut=g.mut())


# ------------------------------------------------------------------------------------- histories

def described(s):
    """The definition of a shell by value, loads included."""
    d = {k: repr(getattr(s, k)) for k in DEFINING}
    d['r'] = repr(getattr(s, 'r') or 0.)
    for k in LOADS:
        d[k] = [[(x(0.25), x(0.5), x(0.75)) if callable(x) else x for x in ld] for ld in getattr(s, k)]
    return d


@op
def op_reload(ctx, e):
    """Save the shell and load it again, in a directory of its own."""
    import os
    import tempfile
    import panels.shell
    s = ctx.shells[e['s']]
    before = described(s)
    g = Guard(ctx)
    back = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            s.save()
            new = panels.shell.load(s.name)
        finally:
            os.chdir(back)
    mut = g.mut()
    ctx.shells[e['s']] = new
    return dict(same=described(new) == before, mut=mut)


def bad_vector(form, n):
    x = np.linspace(-0.1, 0.1, n)
    return {'ok': x, 'list': list(x), '2d': x.reshape(-1, 1), 'short': x[:-1].copy(), 'long': np.append(x, 0.)}[form]


def bad_request(ctx, e):
    """The function to be called for an ill-posed request, and what to do afterwards."""
    import panels
    from panels.multidomain import MultiDomain, connections
    what, call, form, args = e['what'], e['call'], e['form'], e['args']
    undo = lambda: None
    if what == 'norule':
        from panels.legendre_gauss_quadrature import get_points_weights
        x, w = np.zeros(args[1]), np.zeros(args[2])
        return (lambda: get_points_weights(args[0], x, w)), undo
    if what == 'builder':
        return wrong_builder(call, e['g'], form), undo
    if 's' in e:
        s = ctx.shells[e['s']]
        n = num_of(s)
        one = dict(kC=lambda c: s.calc_kC(c=c, NLgeom=True), kG=lambda c: s.calc_kG(c=c), kT=lambda c: s.calc_kT(c=c),
                   fint=lambda c: s.calc_fint(c), uvw=lambda c: s.uvw(c, gridx=3, gridy=2),
                   strain=lambda c: s.strain(c, gridx=3, gridy=2), stress=lambda c: s.stress(c, gridx=3, gridy=2),
                   kM=lambda c: s.calc_kM(), fext=lambda c: s.calc_fext(), kA=lambda c: s.calc_kA())
        if what == 'vector':
            return (lambda: one[call](bad_vector(form, n))), undo
        if what == 'model':
            old = s.model
            def f():
                s.model = 'foo'
                one[form](bad_vector('ok', n))
            def undo():
                s.model = old
            return f, undo
        if what in ('plot', 'axes'):
            from panels.plot_shell import plot_shell
            c = bad_vector('ok', n) * np.linspace(1, 2, n)
            kw = dict(vec=call) if what == 'plot' else dict(ax=bad_axes(call))
            def f():
                try:
                    plot_shell(s, c, gridx=3, gridy=3, save=False, **kw)
                finally:
                    close_figures()
            return f, close_figures
        if what == 'orders':
            nx, ny = args
            c = bad_vector('ok', n)
            o = dict(nx=nx, ny=ny)
            def aero():
                s.nx, s.ny = nx, ny
                s.calc_kA()
            f = dict(kC=lambda: s.calc_kC(c=c, NLgeom=True, **o), kG=lambda: s.calc_kG(c=c, **o), kT=lambda: s.calc_kT(c=c, **o),
                     fint=lambda: s.calc_fint(c, **o), kM=lambda: s.calc_kM(h_nxny=np.ones((nx, ny)), **o), kA=aero)[form]
            old = dict(nx=s.nx, ny=s.ny)
            def undo():
                s.nx, s.ny = old['nx'], old['ny']
            return f, undo
        if what == 'terms':
            old = {k: getattr(s, k) for k in ('m', 'n', 'nx', 'ny')}
            def f():
                s.m, s.n = (args[0], 2) if args[1] == 0 else (2, args[0])
                if form == 'size':
                    s.get_size()
                elif form == 'kPC':
                    s.calc_stiffness_point_constraint(0.5*s.a, 0.25*s.b)
                else:
                    one[form](bad_vector('ok', 6*args[0]))
            def undo():
                for k, v in old.items():
                    setattr(s, k, v)
            return f, undo
        kept = {k: list(getattr(s, k)) for k in LOADS}
        def forget():
            for k in LOADS:
                if len(getattr(s, k)) != len(kept[k]):
                    setattr(s, k, kept[k])
        if what == 'noload':
            f = dict(linex=s.add_distr_load_fixed_x, liney=s.add_distr_load_fixed_y)[form]
            return (lambda: f(s.a)), forget
        if what == 'nopd':
            kw = {k: fl(t) for k, t in zip(('ku', 'kv', 'kw'), args[:3]) if t}
            kw.update({k: Poly([t]) for k, t in zip(('funcu', 'funcv', 'funcw'), args[3:]) if t})
            f = dict(linex=s.add_distr_pd_fixed_x, liney=s.add_distr_pd_fixed_y)[form]
            return (lambda: f(s.a, **kw)), forget
        if what == 'points':
            xs, ys = (np.linspace(0, length, int(np.prod(sh))).reshape(sh) for length, sh in zip((s.a, s.b), args))
            return (lambda: getattr(s, form)(bad_vector('ok', n), xs=xs, ys=ys)), undo
        if what == 'stiffness':
            F = np.zeros(args)
            F[...] = np.eye(6)[:, :args[-1]]
            c = bad_vector('ok', n)
            f = dict(kC=lambda: s.calc_kC(ABDnxny=F), kG=lambda: s.calc_kG(c=c, ABDnxny=F), kT=lambda: s.calc_kT(c=c, ABDnxny=F),
                     fint=lambda: s.calc_fint(c, ABDnxny=F))[form]
            return f, undo
        if what == 'inertia':
            return (lambda: s.calc_kM(**{dict(h='h_nxny', rho='rho_nxny')[form]: np.ones(args)})), undo
    if 'A' in e:
        a = ctx.asms[e['A']]
        n = asm_size(a)
        if what == 'avector':
            c = bad_vector(form, n)
            conn = ctx.conns['K'] if e['A'] != 'B' else []
            f = dict(aKC=lambda: a.calc_kC(c=c, conn=conn, silent=True), aKG=lambda: a.calc_kG(c=c, silent=True),
                     aKT=lambda: MultiDomain(a.panels, conn).calc_kT(c=c, silent=True),
                     aFint=lambda: MultiDomain(a.panels, conn).calc_fint(c, silent=True))
            for k in ('uvw', 'strain', 'stress'):
                f[k] = lambda k=k: getattr(a, k)(c, 'g', gridx=2, gridy=2)
            return f[call], undo
        if what == 'func':
            conn = [dict(p1=a.panels[0], p2=a.panels[1], func=form, ycte1=0., ycte2=a.panels[1].b)]
            return dict(aKC=lambda: a.calc_kC(conn=conn, silent=True), aConn=lambda: a.get_kC_conn(conn=conn))[call], undo
        if what == 'noconn':
            b = MultiDomain(list(a.panels))
            c = bad_vector('ok', n)
            return dict(aKC=lambda: b.calc_kC(silent=True), aConn=lambda: b.get_kC_conn(), aKT=lambda: b.calc_kT(silent=True),
                        aFint=lambda: b.calc_fint(c, silent=True))[call], undo
        if what == 'gauss':
            xg, yg = (np.array([0.25, 0.5]) if k in form and form != 'none' else None for k in 'xy')
            kw = {} if call == 'uvw' else dict(NLterms=False)
            return (lambda: getattr(a, call + '_gauss_points')(bad_vector('ok', n), 'g', xg, yg, **kw)), undo
        if what == 'plot':
            return (lambda: a.plot(bad_vector('ok', n), 'g', vec=call, calc_data_only=True, gridx=2, gridy=2)), undo
        if what == 'axes':
            def f():
                try:
                    a.plot(bad_vector('ok', n) * np.linspace(1, 2, n), 'g', gridx=3, gridy=3, save=False, ax=bad_axes(call))
                finally:
                    close_figures()
            return f, close_figures
        if what == 'tsl':
            p, q = a.panels[:2]
            old = (q.a, q.b)
            law = 'foo' if form == 'law' else 'linear'
            conn = [dict(p1=p, p2=q, func='SB_TSL', tsl_type=law)]
            c = bad_vector('ok', n)
            def f():
                if 'a' in form and form != 'law':
                    q.a = 1.5 * p.a
                if 'b' in form:
                    q.b = 0.75 * p.b
                if call == 'direct':
                    connections.calc_kw_tsl(p, q, law)
                elif call == 'aKC':
                    a.calc_kC(conn=conn, silent=True)
                elif call == 'aConn':
                    a.get_kC_conn(conn=conn)
                elif call == 'aKT':
                    MultiDomain(a.panels, conn).calc_kT(c=c, silent=True)
                else:
                    MultiDomain(a.panels, conn).calc_fint(c, silent=True)
            def undo():
                q.a, q.b = old
            return f, undo
        if what == 'nolam':
            p = [q for q in a.panels if q.group == 'g'][-1]
            attrs = dict(plyt=('plyt', 'plyts'), prop=('laminaprop', 'laminaprops'), stack=('stack',))[form]
            old = {k: getattr(p, k) for k in attrs}
            c = bad_vector('ok', n)
            conn = ctx.conns['K']
            def f():
                for k in attrs:
                    setattr(p, k, None if k in ('plyt', 'laminaprop') else [])
                dict(aKC=lambda: a.calc_kC(conn=conn, silent=True), aKG=lambda: a.calc_kG(silent=True), aKM=lambda: a.calc_kM(silent=True),
                     aKT=lambda: MultiDomain(a.panels, conn).calc_kT(c=c, silent=True),
                     aFint=lambda: MultiDomain(a.panels, conn).calc_fint(c, silent=True), stress=lambda: a.stress(c, 'g', gridx=2, gridy=2))[call]()
            def undo():
                for k in attrs:
                    setattr(p, k, old[k])
            return f, undo
        if what == 'notshell':
            return (lambda: MultiDomain(list(a.panels) + [None])), undo
        if what == 'penalty':
            p = a.panels[0]
            attrs = dict(plyt=('plyt', 'plyts'), prop=('laminaprop', 'laminaprops'), stack=('stack',)).get(form, ())
            old = {k: getattr(p, k) for k in attrs}
            def f():
                for k in attrs:
                    setattr(p, k, None if k != 'stack' else [])
                if connections.calc_kt_kr(p, a.panels[1], call) is None:
                    raise ValueError('no constants')
            def undo():
                for k in attrs:
                    setattr(p, k, old[k])
            return f, undo
    if 'Y' in e:
        return bad_bay(ctx.bays[e['Y']], what, call, form, args)
    raise AssertionError(what)


def bad_axes(form):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    if form == 'none':
        return None
    fig = plt.figure(figsize=(2, 2))
    return dict(axes=fig.add_subplot(111), figure=fig, text='ax')[form]


def close_figures():
    import matplotlib.pyplot as plt
    plt.close('all')


def bad_bay(b, what, call, form, args):
    from panels.stiffpanelbay import StiffPanelBay
    undo = lambda: None
    try:
        n = bay_size(b)
    except TypeError:
        n = 3 * 16
    if what == 'bstiff':
        kw = dict(bstack=[0., 90.], bplyt=0.1, blaminaprop=(10., 4., 0.25, 3., 2., 1.), bb=0.1 * b.b, fstack=[0.], fplyt=0.1,
                  flaminaprop=(10., 4., 0.25, 3., 2., 1.), bf=0.2)
        gone = dict(nostack=('bstack', 'fstack'), nobply=('bplyt',), nobprop=('blaminaprop',), nofply=('fplyt',), nofprop=('flaminaprop',)).get(form, ())
        for k in gone:
            kw.pop(k)
        if call == '2d':
            kw.update(mf=3, nf=3)
        ys = b.panels[0].y2 if form != 'line' else b.panels[0].y1 + 0.37 * (b.panels[0].y2 - b.panels[0].y1)
        on = b
        if form == 'nopanels':
            on = StiffPanelBay()
            on.a, on.b, on.stack, on.plyt, on.laminaprop = b.a, b.b, b.stack, b.plyt, b.laminaprop
        kept = list(b.stiffeners), list(b.bladestiff1ds), list(b.bladestiff2ds)
        def undo():
            b.stiffeners[:], b.bladestiff1ds[:], b.bladestiff2ds[:] = kept
        return (lambda: getattr(on, 'add_bladestiff' + call)(ys, **kw)), undo
    if what == 'bcall':
        c = bad_vector(form, n)
        f = dict(bKC=lambda: b.calc_kC(silent=True), bKG=lambda: b.calc_kG(silent=True), bKM=lambda: b.calc_kM(silent=True),
                 bKA=lambda: b.calc_kA(silent=True), bCA=lambda: b.calc_cA(silent=True), bFext=lambda: b.calc_fext(silent=True),
                 bSize=lambda: b.get_size(), skin=lambda: b.uvw_skin(c, gridx=2, gridy=2), bKGc=lambda: b.calc_kG(c=c, silent=True))
        return f[call], undo
    if what == 'bflange':
        return (lambda: b.uvw_stiffener(bad_vector(form, n), args[0] - 1, gridx=2, gridy=2)), undo
    if what == 'bregion':
        return (lambda: b.uvw_stiffener(bad_vector('ok', n), args[0] - 1, region=call, gridx=2, gridy=2)), undo
    if what == 'bpoints':
        xs, ys = (np.linspace(0, length, int(np.prod(sh))).reshape(sh) for length, sh in zip((b.a, b.b), args))
        return (lambda: b.uvw_skin(bad_vector('ok', n), xs=xs, ys=ys)), undo
    if what == 'bplot':
        import matplotlib.pyplot as plt
        kw = dict(gridx=5, gridy=4, silent=True, vec='Nxx' if form == 'vec' else 'w', ax=object() if form == 'ax' else plt.figure().add_subplot(111))
        c = bad_vector('ok', n)
        if args:
            return (lambda: b.plot_stiffener(c, args[0] - 1, **kw) if call == 'flange' else b.plot_skin(c, **kw)), undo
        return (lambda: b.plot_skin(c, **kw)), undo
    raise AssertionError(what)


@op
def op_bad(ctx, e):
    f, undo = bad_request(ctx, e)
    g = Guard(ctx)
    rejected = ''
    try:
        f()
    except Exception as x:
        rejected = type(x).__name__
    mut_now = g.mut() if rejected and e['what'] in ('noload', 'nopd') else []
    undo()
    return dict(rejected=rejected, mut=sorted(set(g.mut() + mut_now)))


# ------------------------------------------------------------------------------------- stiffened bays

def lam_kw(l, pre=''):
    """Keywords of a laminate [stack, plyt, plyts, prop, props]."""
    kw = {}
    if l['stack']:
        kw[pre + 'stack'] = [DEG[x] for x in l['stack']]
    if l['plyt'] != '':
        kw[pre + 'plyt'] = fl(l['plyt'])
    if l['plyts']:
        kw[pre + 'plyts'] = [fl(x) for x in l['plyts']]
    if l['prop']:
        kw[pre + 'laminaprop'] = tuple(fl(x) for x in l['prop'])
    if l['props']:
        kw[pre + 'laminaprops'] = [tuple(fl(y) for y in x) for x in l['props']]
    return kw


def force(f):
    return [fl(f['x']), fl(f['y'])] + [fl(t) for t in f['f']]


def make_bay(d):
    from panels.stiffpanelbay import StiffPanelBay
    b = StiffPanelBay()
    at = attributes(dict(d, sub=['', '', '', ''], N=['0'] * 3, Nc=['0'] * 3, nx=0, ny=0, offset='0', rhos=[], loads=[], group=''))
    at = left_out(at, BAY_DEFAULT)
    for k in ('a', 'b', 'r', 'm', 'n', 'stack', 'plyt', 'plyts', 'laminaprop', 'laminaprops', 'rho') + tuple(AERO) \
            + tuple(a for names in FLAGS for a in names):
        if k in at:
            setattr(b, k, at[k])
    if d['sound'] != '':
        b.speed_sound = fl(d['sound'])
    if d['mu'] != '':
        b.aeromu = fl(d['mu'])
    b.forces_skin = [force(f) for f in d['forces']]
    for p in d['skins']:
        kw = lam_kw(p['lam'])
        if p['rho'] != '':
            kw['rho'] = fl(p['rho'])
        for k, t, c in zip(('Nxx', 'Nyy', 'Nxy'), p['N'], p['Nc']):
            kw[k] = fl(t)
            kw[k + '_cte'] = fl(c)
        b.add_panel(fl(p['y1']), fl(p['y2']), **kw)
    for s in d['stiffs']:
        kw = dict(lam_kw(s['base'], 'b'), **lam_kw(s['flange'], 'f'))
        if s['base']['stack']:
            kw['bb'] = fl(s['bb'])
        if s['flange']['stack']:
            kw['bf'] = fl(s['bf'])
        if s['rho'] != '':
            kw['rho'] = fl(s['rho'])
        if s['kind'] == '1d':
            if s['Fx'] != '0':
                kw['Fx'] = fl(s['Fx'])
            b.add_bladestiff1d(fl(s['ys']), **kw)
        else:
            x = b.add_bladestiff2d(fl(s['ys']), mf=s['mf'], nf=s['nf'], **kw)
            if x.flange is not None:
                x.flange.Nxx, x.flange.Nyy, x.flange.Nxy = [fl(t) for t in s['N']]
                x.forces_flange = [force(f) for f in s['forces']]
    return b


def bay_size(d):
    """Degrees of freedom by the documented layout: those of the skin, then of every flange that is a plate."""
    return 3 * d.m * d.n + sum(num_of(s.flange) for s in d.bladestiff2ds if s.flange is not None)


@op
def op_bay(ctx, e):
    ctx.bays[e['Y']] = make_bay(e['def'])
    return {}


@op
def op_bset(ctx, e):
    """The airflow and the forces of the skin of a bay."""
    b, k, v = ctx.bays[e['Y']], e['attr'], e['val']
    if k == 'forces':
        b.forces_skin = [force(f) for f in v]
    elif k == 'flow':
        b.flow = v
    else:
        setattr(b, dict(sound='speed_sound', mu='aeromu').get(k, k), opt(v))
    return {}


LAM_ATTR = dict(prop='laminaprop')


def lam_value(k, v):
    if k == 'stack':
        return [DEG[x] for x in v]
    return opt(v)


@op
def op_pset(ctx, e):
    """One attribute of a panel of a bay."""
    p, k, v = ctx.bays[e['Y']].panels[e['i'] - 1], e['attr'], e['val']
    if k in ('N', 'Nc'):
        for a, t in zip(('Nxx', 'Nyy', 'Nxy'), v):
            setattr(p, a + ('_cte' if k == 'Nc' else ''), fl(t))
    else:
        setattr(p, k, lam_value(k, v))
    return {}


@op
def op_sset(ctx, e):
    """One attribute of a stiffener of a bay."""
    s, k, v = ctx.bays[e['Y']].stiffeners[e['i'] - 1], e['attr'], e['val']
    if k == 'Fx':
        s.Fx = fl(v)
    elif k == 'forces':
        s.forces_flange = [force(f) for f in v]
    elif k == 'N':
        s.flange.Nxx, s.flange.Nyy, s.flange.Nxy = [fl(t) for t in v]
    else:
        setattr(s.flange, k, lam_value(k, v))
    return {}


def described_bay(b):
    return (repr([getattr(b, k) for k in BAY]), [{k: v for k, v in described(p).items() if k not in AERO} for p in b.panels],
            [repr([getattr(s, k, None) for k in STIFF]) for s in b.stiffeners], [type(s).__name__ for s in b.stiffeners],
            [described(s.flange) for s in b.bladestiff2ds if s.flange is not None])


@op
def op_breload(ctx, e):
    """Save the bay and load it again, in a directory of its own."""
    import os
    import tempfile
    import panels.stiffpanelbay.stiffpanelbay as where
    b = ctx.bays[e['Y']]
    before = described_bay(b)
    b.name = 'bay'
    g = Guard(ctx)
    back = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            b.save()
            new = where.load('bay')
        finally:
            os.chdir(back)
    mut = g.mut()
    ctx.bays[e['Y']] = new
    return dict(same=described_bay(new) == before, mut=mut)


def bay_matrix(ctx, e, call):
    b = ctx.bays[e['Y']]
    n = bay_size(b)
    c = state(e['c'], n)
    g = Guard(ctx, c=c)
    K = getattr(b, call)(silent=True, **(dict(c=c) if c is not None else {}))
    return K, n, g


@op
def op_bKC(ctx, e):
    K, n, g = bay_matrix(ctx, e, 'calc_kC')
    return dict(matrix_obs(K, e['vecs'], n, 0, 0), mut=g.mut())


@op
def op_bKG(ctx, e):
    K, n, g = bay_matrix(ctx, e, 'calc_kG')
    return dict(matrix_obs(K, e['vecs'], n, 0, 0), mut=g.mut())


@op
def op_bKM(ctx, e):
    K, n, g = bay_matrix(ctx, e, 'calc_kM')
    return dict(matrix_obs(K, e['vecs'], n, 0, 0), mut=g.mut())


@op
def op_bKA(ctx, e):
    K, n, g = bay_matrix(ctx, e, 'calc_kA')
    return dict(matrix_obs(K, e['vecs'], n, 0, 0), mut=g.mut())


@op
def op_bCA(ctx, e):
    K, n, g = bay_matrix(ctx, e, 'calc_cA')
    return dict(matrix_obs(K.imag, e['vecs'], n, 0, 0), real=big(K.real.toarray()), mut=g.mut())


@op
def op_sMat(ctx, e):
    """A matrix of one stiffener of a bay, by itself."""
    b = ctx.bays[e['Y']]
    n = bay_size(b)
    s = b.stiffeners[e['i'] - 1]
    c = state(e['c'], n)
    kw = {} if c is None else dict(c=c, NLgeom=e['NL'])
    g = Guard(ctx, c=c)
    getattr(s, 'calc_' + e['call'])(size=n, row0=e['at'], col0=e['at'], silent=True, finalize=e['fin'], **kw)
    return dict(matrix_obs(getattr(s, e['call']), e['vecs'], n, 0, 0, e['fin']), mut=g.mut())


@op
def op_bFext(ctx, e):
    b = ctx.bays[e['Y']]
    g = Guard(ctx)
    f = b.calc_fext(silent=True)
    return dict(vector_obs(f, e['vecs'], bay_size(b), 0), mut=g.mut())


@op
def op_bSize(ctx, e):
    g = Guard(ctx)
    n = int(ctx.bays[e['Y']].get_size())
    return dict(size=n, mut=g.mut())


@op
def op_bField(ctx, e):
    b = ctx.bays[e['Y']]
    if e['cores']:
        b.out_num_cores = e['cores']
    kw, xs, ys = points_kw(e)
    c = state(e['c'], bay_size(b))
    g = Guard(ctx, c=c, xs=xs, ys=ys)
    if e['si'] == 0:
        r = b.uvw_skin(c, **kw)
    else:
        r = b.uvw_stiffener(c, e['si'] - 1, **kw)
    return dict(field_obs(dict(Xs=b.Xs, Ys=b.Ys), dict(zip(UVW, r)), UVW), mut=g.mut())


# ------------------------------------------------------------------------------------- contour plots

@op
def op_draw(ctx, e):
    import tempfile
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.axes
    import matplotlib.pyplot as plt
    what = e['what']
    owner = ctx.shells[e['s']] if what == 'shell' else ctx.asms[e['A']] if what == 'asm' else ctx.bays[e['Y']]
    size = num_of(owner) if what == 'shell' else asm_size(owner) if what == 'asm' else bay_size(owner)
    c = state(e['c'], size)
    kw = dict(vec=e['vec'], num_levels=e['levels'], save=e['save'], invert_y=e['down'], colorbar=e['bar'], dpi=30)
    xs = ys = None
    if what == 'asm':
        kw.update(dict(gridx=e['gridx'], gridy=e['gridy']) if not e['gauss'] else
                  dict(use_gauss_points=True, x_gauss=np.array([fl(t) for t in e['xg']]), y_gauss=np.array([fl(t) for t in e['yg']])))
        if e['marks']:
            kw.update(identify=True, show_boundaries=True)
    else:
        pk, xs, ys = points_kw(e)
        kw.update(pk)
        if e['deform'] != '':
            kw.update(deform_u=True, deform_u_sf=fl(e['deform']))
    for k, t in (('vecmin', 'vmin'), ('vecmax', 'vmax')):
        if e[t] != '':
            kw[k] = fl(e[t])
    if e['file']:
        kw['filename'] = e['file']
    if what == 'shell':
        kw.update(plot_offset_x=fl(e['off'][0]), plot_offset_y=fl(e['off'][1]), NLgeom=e['NL'])
    ax = plt.figure().add_subplot(111) if e['ax'] else None
    if ax is not None:
        kw['ax'] = ax
    names = UVW if what == 'bay' else UVW + STRAINS + STRESSES
    stored = (lambda: {k: getattr(owner, k) for k in UVW}) if what == 'bay' else (lambda: dict(owner.fields)) if what == 'shell' else dict
    before = {k: np.array(v) for k, v in stored().items() if v is not None}
    seen = []
    real = matplotlib.axes.Axes.contourf

    def contourf(self, *args, **k):
        lev = args[3] if len(args) > 3 else k.get('levels')
        seen.append((self, [np.array(x, dtype=float) for x in args[:3]], np.array(lev, dtype=float)))
        return real(self, *args, **k)
    old = os.getcwd()
    tmp = tempfile.mkdtemp(dir=old)
    os.chdir(tmp)
    g = Guard(ctx, c=c, xs=xs, ys=ys)
    matplotlib.axes.Axes.contourf = contourf
    data, flat = {}, False
    try:
        if what == 'shell':
            from panels.plot_shell import plot_shell
            got = plot_shell(owner, c, **kw)
        elif what == 'asm':
            got, data = owner.plot(c, e['group'], **kw)
        elif e['si'] == 0:
            got = owner.plot_skin(c, silent=True, **kw)
        else:
            got = owner.plot_stiffener(c, e['si'] - 1, silent=True, **kw)
    except ValueError as x:
        if 'increasing' not in str(x):
            raise
        got, flat = None, True
    finally:
        matplotlib.axes.Axes.contourf = real
        files = os.listdir(tmp)
        shutil.rmtree(tmp)
        os.chdir(old)
        plt.close('all')
    if flat:
        return dict(flat=True, mut=g.mut())
    after = stored()
    kept = all(np.array_equal(v, after[k]) for k, v in before.items())
    axes = all(s is got for s, _, _ in seen) and (ax is None or ax is got)
    ok = not e['file'] or ax is not None or not e['save'] or e['file'] in files
    parts = [dict(shape=list(v[2].shape), y=nums(v[0]), x=nums(v[1]), vals=nums(v[2]), levels=nums(lev)) for _, v, lev in seen]
    return dict(flat=False, parts=parts, kept=kept, axes=bool(axes), down=bool(got.yaxis_inverted()), files=len(files) if ok else -1,
                min=num(data.get('vecmin', 0)), max=num(data.get('vecmax', 0)), mut=g.mut())


# ------------------------------------------------------------------------------------- ready-made assemblies

UNDEG = {v: k for k, v in DEG.items()}


def blank_or_num(x):
    return '' if x is None or x == 0 else num(x)


def definition(s):
    """The definition record of a shell, read back from its attributes."""
    n = len(s.stack)
    plyts = list(s.plyts) if s.plyts else [s.plyt] * n
    props = list(s.laminaprops) if s.laminaprops else [s.laminaprop] * n
    rhos = list(s.rhos) if s.rhos else [s.rho] * n
    none = lambda x: '' if x is None else num(x)
    d = dict(a=num(s.a), b=num(s.b), r=blank_or_num(s.r), m=int(s.m), n=int(s.n), nx=0, ny=0,
             stack=[UNDEG.get(float(t), repr(t)) for t in s.stack], plyt='', plyts=nums(plyts), prop=[], props=[nums(p) for p in props],
             rho='', rhos=nums(rhos), offset=num(s.offset), ortho=bool(s.force_orthotropic_laminate),
             fl=[[num(getattr(s, k)) for k in names] for names in FLAGS], sub=['', '', '', ''],
             N=[num(getattr(s, k) or 0.) for k in ('Nxx', 'Nyy', 'Nxy')], Nc=[num(getattr(s, k + '_cte')) for k in ('Nxx', 'Nyy', 'Nxy')],
             flow=s.flow, beta=none(s.beta), gamma=none(s.gamma), rho_air=none(s.rho_air), V=none(s.V), Mach=none(s.Mach),
             group=s.group or '', loads=[])
    return dict(def_=d, x0=num(s.x0), y0=num(s.y0), order=[int(s.nx), int(s.ny)])


BUILDERS = dict(cyl='create_cylinder_assy', cyl_lb='cylinder_compression_lb_Nxx_cte', cyl_static='cylinder_compression_lb_Nxx_from_static',
                cyl_spla='cylinder_spla', bcyl='create_cylinder_blade_stiffened',
                bcyl_lb='cylinder_blade_stiffened_compression_lb_Nxx_cte',
                bcyl_static='cylinder_blade_stiffened_compression_lb_Nxx_from_static', ts_comp='tstiff2d_1stiff_compression',
                ts_freq='tstiff2d_1stiff_freq', ts_flutter='tstiff2d_1stiff_flutter')


def degrees(stack):
    return [DEG[x] for x in stack]


def builder_call(fn, g):
    """The function and its arguments."""
    import importlib
    where = 'cylinder' if fn.startswith('cyl') else 'cylinder_blade_stiffened' if fn.startswith('bcyl') else BUILDERS[fn]
    f = getattr(importlib.import_module('panels.multidomain.' + where), BUILDERS[fn])
    kw = dict(plyt=fl(g['plyt']), laminaprop=tuple(fl(x) for x in g['prop']), m=g['m'], n=g['n'])
    if fn.startswith('ts'):
        kw.update({k: fl(g[k]) for k in ('a', 'b', 'ys', 'bb', 'bf', 'rho')}, defect_a=fl(g['defect']), r=opt(g['r']),
                  stack_skin=degrees(g['stack']), stack_base=degrees(g['base']), stack_flange=degrees(g['flange']))
        kw.update({k: v for k, v in zip(('mb', 'nb', 'mf', 'nf'), g['mn']) if v})
        if fn != 'ts_freq':
            kw.update(zip(('Nxx_skin', 'Nxx_base', 'Nxx_flange'), [opt(t) for t in g['Nx']]))
            if not g['static']:
                kw['run_static_case'] = False
        if fn == 'ts_comp':
            kw.update({k: v for k, v in zip(('nx', 'ny', 'nxb', 'nyb', 'nxf', 'nyf'), g['order']) if v})
        if fn == 'ts_flutter':
            kw.update(air_speed=fl(g['V']), rho_air=fl(g['rho_air']), Mach=fl(g['Mach']), speed_sound=fl(g['sound']), flow=g['flow'])
        return f, kw
    kw.update(height=fl(g['a']), r=fl(g['r']), stack=degrees(g['stack']), npanels=g['np'])
    if fn.startswith('bcyl'):
        kw.update(stack_blades=[degrees(x) for x in g['stacks']], width_blades=[fl(x) for x in g['widths']])
    if fn.endswith('lb') or fn.endswith('static'):
        kw['num_eigvalues'] = g['num']
        if fn.startswith('bcyl'):
            kw.update(Nxxs_skin=[fl(x) for x in g['Nxxs']], Nxxs_blade=[fl(x) for x in g['Nxxb']])
        else:
            kw['Nxxs'] = [fl(x) for x in g['Nxxs']]
    if fn == 'cyl_spla':
        kw.update(Nxx=fl(g['Nxxs'][0]), SPLA=fl(g['spla']))
    return f, kw


def wrong_builder(fn, g, form):
    """The same call with arguments that do not fit together."""
    f, kw = builder_call(fn, g)
    forces = 'Nxxs_skin' if fn.startswith('bcyl') else 'Nxxs'
    if form in ('one', 'none'):
        n = kw['npanels'] = 1 if form == 'one' else 0
        for k in ('stack_blades', 'width_blades', 'Nxxs', 'Nxxs_skin', 'Nxxs_blade'):
            if k in kw:
                kw[k] = kw[k][:n]
    elif form == 'short':
        kw[forces] = kw[forces][:-1]
    elif form == 'long':
        kw[forces] = kw[forces] + kw[forces][:1]
    elif form == 'blade':
        kw['Nxxs_blade'] = kw['Nxxs_blade'][:-1]
    elif form == 'stacks':
        kw['stack_blades'] = kw['stack_blades'] + kw['stack_blades'][:1]
    elif form == 'widths':
        kw['width_blades'] = kw['width_blades'][:-1]
    return lambda: f(**kw)


@op
def op_build(ctx, e):
    f, kw = builder_call(e['fn'], e['g'])
    g = Guard(ctx)
    r = f(**kw)
    mut = g.mut()
    a = r[0]
    where = {id(p): i + 1 for i, p in enumerate(a.panels)}
    conns = r[1] if e['fn'] in ('cyl', 'bcyl') else []
    res = dict(c=None, lam=None, vec=None)
    if e['fn'] == 'cyl_spla':
        res.update(c=r[2][-1], inc=num(r[1][-1]))
    elif e['fn'] not in ('cyl', 'bcyl'):
        res.update(lam=r[-2], vec=r[-1])
        if len(r) == 4:
            res['c'] = r[1]
    ctx.built = getattr(ctx, 'built', {})
    ctx.built[e['A']] = res
    ctx.asms[e['A']] = a
    for i, p in enumerate(a.panels):
        ctx.shells['%s.%d' % (e['A'], i + 1)] = p
    if conns:
        ctx.conns[e['A']] = conns
    doms = [definition(p) for p in a.panels]
    for d in doms:
        d['def'] = d.pop('def_')
    cte = lambda c, i: next((num(c[k]) for k in ('xcte%d' % i, 'ycte%d' % i) if k in c), '')
    return dict(doms=doms, conns=[dict(p1=where.get(id(c['p1']), 0), p2=where.get(id(c['p2']), 0), func=c['func'], c1=cte(c, 1), c2=cte(c, 2))
                                  for c in conns], mut=mut)


@op
def op_disp(ctx, e):
    b = ctx.built[e['A']]
    return dict(c=[] if b['c'] is None else nums(b['c']), inc=b.get('inc', '1.0'), mut=[])


@op
def op_mode(ctx, e):
    b, i = ctx.built[e['A']], e['i']
    c = [] if b['c'] is None else nums(b['c'])
    if b['lam'] is None or len(b['lam']) <= i or b['vec'].shape[1] <= i:
        return dict(found=False, lam=['0', '0'], re=[], im=[], c=c, mut=[])
    lam, v = complex(b['lam'][i]), np.array(b['vec'][:, i])
    k = np.argmax(abs(v))
    if v[k] != 0:
        v = v / v[k]
    im = nums(v.imag) if np.iscomplexobj(v) and np.abs(v.imag).max() > 0 else []
    if lam.imag and not im:
        im = nums(0 * v.real)
    return dict(found=True, lam=[num(lam.real), num(lam.imag)], re=nums(v.real), im=im, c=c, mut=[])
