# usage: seedbugs.py [ID...]: writes /verif/seeded/ID (all when none is given)
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seedlib
def seed(i, *a):
    if i in sys.argv[1:] or not sys.argv[1:]:
        seedlib.seed(i, *a)
CN='panels/models/cylshell_clpt_donnell_bardell_num.pyx'
PN='panels/models/plate_clpt_donnell_bardell_num.pyx'
MD='panels/multidomain/multidomain.py'
SH='panels/shell.py'

seed('c01-fpp-all-terms','C01',[('panels/core/src/bardell_functions.cpp','    fpp[26] = 1922106.96238875*pow(xi, 24) - 11287266.4174318*pow(xi, 22)','    fpp[26] = 1922106.96238875*pow(xi, 24) - 11287266.4714318*pow(xi, 22)')],
 'second derivative of term 26 evaluated with all terms at once, away from xi=0','two digits of one coefficient swapped in vec_fpp; the evaluation of the single term stays right',
'''import numpy as np
from panels.bardell import calc_vec_fpp, calc_fpp
ok = True
for xi in (-1., -0.95, 0.9, 1.):
    v = calc_vec_fpp(xi, 1, 1, 1, 1)
    for i in range(30):
        e = calc_fpp(i, xi, 1, 1, 1, 1)
        if abs(v[i] - e) > 1e-4*max(1, abs(e)) and abs(v[i] - e) > 1e-3:
            print(i, xi, v[i], e); ok = False
raise SystemExit(not ok)
''')

seed('c02-fpfp-21-22','C02',[('panels/core/src/bardell.cpp','            return 0.00125078173858662;\n','            return 0.00125071873858662;\n')] if False else
 [('panels/core/src/bardell.cpp','''        case 20:
            return -0.00138600138600139;
        case 22:
            return 0.00125078173858662;
''','''        case 20:
            return -0.00138600138600139;
        case 22:
            return 0.00125087173858662;
''')],'the pair (21, 22) of one table','two digits swapped in one tabulated integral',
'''import numpy as np
from panels.bardell import calc_integral_%s as I, calc_vec_%s as A, calc_vec_%s as B
x, w = np.polynomial.legendre.leggauss(40)
fa = np.array([A(t, 1, 1, 1, 1) for t in x]); fb = np.array([B(t, 1, 1, 1, 1) for t in x])
E = np.einsum('p,pi,pj->ij', w, fa, fb)
bad = 0
for i in range(24):
    for j in range(24):
        v = I(i, j, 1, 1, 1, 1, 1, 1, 1, 1)
        if abs(v - E[i, j]) > 1e-9 + 1e-6*abs(E[i, j]):
            print(i, j, v, E[i, j]); bad = 1
raise SystemExit(bad)
''' % ('ffp','f','fp'))

seed('c03-rule-59','C03',[('panels/core/src/legendre_gauss_quadrature.cpp','        weights[27] = 0.0525039026478287390509413220142884653607880584859075305;\n','        weights[27] = 0.0525039026478278390509413220142884653607880584859075305;\n')],
 'the rule with 59 points','one weight of the 59-point rule is off in the 13th digit... swapped digits',
'''import numpy as np
from panels.legendre_gauss_quadrature import get_points_weights
bad = 0
for n in range(2, 65):
    x = np.zeros(n); w = np.zeros(n)
    get_points_weights(n, x, w)
    if np.abs(w - w[::-1]).max() > 1e-15 or abs(w.sum() - 2) > 4e-15:
        print(n, np.abs(w - w[::-1]).max(), w.sum() - 2); bad = 1
raise SystemExit(bad)
''')

seed('c04-phiy-flags','C04',[('panels/models/clpt_bardell_field.pyx','''        vec_f(fw, xi, x1w, x1wr, x2w, x2wr)
        vec_fp(gweta, eta, y1w, y1wr, y2w, y2wr)

        wy = 0
''','''        vec_f(fw, xi, x1w, x1wr, x2w, x1wr)
        vec_fp(gweta, eta, y1w, y1wr, y2w, y2wr)

        wy = 0
''')],'rotation flags of w that differ between the two x edges','the rotation phiy uses the rotation flag of edge x1 at edge x2',
'''import numpy as np
from panels import Shell
s = Shell(a=2., b=1., m=5, n=5, plyt=0.01, stack=[0], laminaprop=(70e9, 70e9, .3, 27e9, 27e9, 27e9),
          x1w=1, x1wr=0, x2w=0, x2wr=1, y1w=0, y1wr=1, y2w=1, y2wr=0)
c = np.sin(np.arange(s.get_size()) + 1.)
x = np.linspace(0.1, 1.9, 7); y = np.linspace(0.1, 0.9, 7); e = 1e-6
phiy = s.uvw(c, x, y)[1]['phiy'].copy()
wp = s.uvw(c, x, y + e)[1]['w'].copy(); wm = s.uvw(c, x, y - e)[1]['w'].copy()
d = np.abs(phiy + (wp - wm)/(2*e)).max()
print(d)
raise SystemExit(d > 1e-6)
''')

seed('c05-negative-radius','C05',[('panels/models/clpt_bardell_field.pyx','''    if r == 0:
        flagcyl = 0
''','''    if r <= 0:
        flagcyl = 0
''')],'a shell that curves to the other side (negative radius)','the term w/r of the circumferential strain is dropped',
'''import numpy as np
from panels import Shell
def eyy(r):
    s = Shell(a=2., b=1., r=r, m=4, n=4, plyt=0.01, stack=[0], laminaprop=(70e9, 70e9, .3, 27e9, 27e9, 27e9))
    c = np.cos(np.arange(s.get_size()) + 1.)
    x = np.linspace(0.1, 1.9, 5); y = np.linspace(0.1, 0.9, 5)
    w = s.uvw(c, x, y)[1]['w'].copy()
    return s.strain(c, x, y, NLgeom=False)[1]['eyy'].copy(), w
e1, w = eyy(4.)
e2, w = eyy(-4.)
d = np.abs(e1 - e2 - 2*w/4.).max()
print(d)
raise SystemExit(d > 1e-9)
''')

seed('c06-cyl-a26-state','C06',[(CN,'fAw*gAweta*(2*fBw*gBweta*wxi + fBwxi*gBw*weta)','fAw*gAweta*(fBw*gBweta*wxi + fBwxi*gBw*weta)')],
 'curved shell, laminate with A26, strains linearised about a displacement with w,x','one factor 2 dropped from the A26 term of the numerically integrated stiffness about a displacement state',
'''import numpy as np
from panels import Shell
def model(r):
    return Shell(a=2., b=1., r=r, m=3, n=3, plyt=0.01, stack=[30], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
s = model(1e9); p = model(None)
c = 0.01*np.cos(np.arange(s.get_size()) + 1.)
K = s.calc_kC(c=c, NLgeom=True).toarray(); P = p.calc_kC(c=c, NLgeom=True).toarray()
d = np.abs(K - P).max()/np.abs(P).max()
print(d)
raise SystemExit(d > 1e-6)
''')

seed('c07-cyl-nxy-b16','C07',[(CN,'Nxy = Nxy0 + A16*exx + A26*eyy + A66*gxy + B16*kxx + B26*kyy + B66*kxy','Nxy = Nxy0 + A16*exx + A26*eyy + A66*gxy + B16*(kxx + kyy) + B66*kxy')],
 'curved shell with an unsymmetric off-axis laminate (B16 different from B26) and a displacement state that bends in y','the shear force of the state uses B16 for kyy',
'''import numpy as np
from panels import Shell
def model(r):
    return Shell(a=2., b=1., r=r, m=3, n=3, plyt=0.01, stack=[30, -10], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
s = model(1e9); p = model(None)
c = 0.01*np.cos(np.arange(s.get_size()) + 1.)
K = s.calc_kG(c=c).toarray(); P = p.calc_kG(c=c).toarray()
d = np.abs(K - P).max()/np.abs(P).max()
print(d)
raise SystemExit(d > 1e-6)
''')

seed('c08-density-of-h','C08',[(SH,'            rho_nxny[:, :] = self.lam.intrho/self.lam.h\n','            rho_nxny[:, :] = self.lam.intrho/h_nxny\n')],
 'kM with thicknesses given for the integration points but no densities','the default density is the mass per area divided by the given thickness, so the mass does not follow the given thickness',
'''import numpy as np
from panels import Shell
s = Shell(a=2., b=1., m=4, n=4, plyt=0.01, stack=[0], rho=1000., laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
M = s.calc_kM().toarray()
h = np.full((s.nx, s.ny), 0.02)
M2 = s.calc_kM(h_nxny=h).toarray()
i = np.arange(0, s.get_size(), 3)   # dofs of u: no rotary inertia
d = np.abs(M2[np.ix_(i, i)] - 2*M[np.ix_(i, i)]).max()/np.abs(M).max()
print(d)
raise SystemExit(d > 1e-9)
''')

seed('c11-pd-reversal','C11',[('panels/shell_fext.py','        distr_pds.append(pd + [inc])\n','        distr_pds.append(pd + [abs(inc)])\n')],
 'incremental prescribed displacement on a line with a negative load factor','reversing the load factor does not reverse the prescribed displacement',
'''import numpy as np
from panels import Shell
s = Shell(a=2., b=1., m=4, n=4, plyt=0.01, stack=[0], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
s.add_distr_pd_fixed_x(1., kw=1e3, funcw=lambda y: 1. + y, cte=False)
f = s.calc_fext(inc=1.); g = s.calc_fext(inc=-0.5)
d = np.abs(g + 0.5*f).max()
print(d)
raise SystemExit(d > 1e-9)
''')

seed('c12-gamma-mach','C12',[(SH,'                gamma = beta*1./(2.*self.r*(Mach**2 - 1)**0.5)\n','                gamma = beta*1./(2.*self.r*(self.Mach**2 - 1)**0.5) if self.Mach > 2 else beta*1./(2.*self.r*(Mach - 1))\n')],
 'a curved shell with a Mach number not larger than 2','the curvature correction uses Mach - 1 instead of sqrt(Mach^2 - 1)',
'''import numpy as np
from panels import Shell
def kA(M, r):
    s = Shell(a=2., b=1., r=r, m=4, n=4, plyt=0.01, stack=[0], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9), x1w=0, x2w=0)
    s.Mach = M; s.rho_air = 1.2; s.V = 500.; s.flow = 'x'
    return s.calc_kA().toarray()
bad = 0
for M in (1.3, 1.8, 3.):
    A = kA(M, 3.); B = kA(M, None)
    # the convective part is the same, the difference is gamma int w w
    beta = 1.2*500.**2/(M**2 - 1)**0.5
    gamma = beta/(2*3.*(M**2 - 1)**0.5)
    s = Shell(a=2., b=1., r=None, m=4, n=4, plyt=0.01, stack=[0], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9), x1w=0, x2w=0)
    C = np.imag(s.calc_cA(1.).toarray())
    k = np.argmax(np.abs(np.diag(C)))
    D = A - B
    d = np.abs(np.abs(D) - gamma*np.abs(C)).max()/np.abs(D).max()
    print(M, d)
    bad |= d > 1e-6
raise SystemExit(int(bad))
''')

seed('c13-fint-part','C13',[(CN,'''    fint = np.zeros(size, dtype=DOUBLE)

    xi1 = -1
    xi2 = +1
    if x1 != -1 and x2 != -1:
        xinf = 0
        xsup = shell.a
        xi1 = (x1 - xinf)/(xsup - xinf)*2 - 1
        xi2 = (x2 - xinf)/(xsup - xinf)*2 - 1
    else:
        x1 = 0
        x2 = shell.a

    eta1 = -1
    eta2 = +1
    if y1 != -1 and y2 != -1:
''','''    fint = np.zeros(size, dtype=DOUBLE)

    xi1 = -1
    xi2 = +1
    if x1 != -1 and x2 != -1:
        xinf = 0
        xsup = shell.a
        xi1 = (x1 - xinf)/(xsup - xinf)*2 - 1
        xi2 = (x2 - xinf)/(xsup - xinf)*2 - 1
    else:
        x1 = 0
        x2 = shell.a

    eta1 = -1
    eta2 = +1
    if y1 > 0 and y2 != -1:
''')],'internal forces of a curved shell over a strip that starts at y=0','a strip that starts at y1=0 is taken as the whole domain',
'''import numpy as np
from panels import Shell
def fint(y1, y2):
    s = Shell(a=2., b=1., r=3., m=4, n=4, plyt=0.01, stack=[0, 30], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9), y1=y1, y2=y2)
    c = 1e-3*np.cos(np.arange(s.get_size()) + 1.)
    return s.calc_fint(c, nx=12, ny=12)
w = fint(-1, -1); p = fint(0., 0.4) + fint(0.4, 1.)
d = np.abs(w - p).max()/np.abs(w).max()
print(d)
raise SystemExit(d > 1e-9)
''')

seed('c14-kg-state-slice','C14',[(PN,'''                            fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
                            fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)

                            col = col0 + DOF*(j*m + i)

                            wxi += cs[col+2]*fAwxi*gAw
                            weta += cs[col+2]*fAw*gAweta

                # Calculating strain components
''','''                            fAw = f(i, xi, x1w, x1wr, x2w, x2wr)
                            fAwxi = fp(i, xi, x1w, x1wr, x2w, x2wr)

                            col = DOF*(j*m + i)

                            wxi += cs[col+2]*fAwxi*gAw
                            weta += cs[col+2]*fAw*gAweta

                # Calculating strain components
''')] ,'tangent stiffness (nonlinear geometric stiffness) of a domain that is not the first','the rotations of the state are those of the first domain',
'''import numpy as np
from panels import Shell
from panels.multidomain import MultiDomain
def mk():
    return Shell(a=2., b=1., m=3, n=3, plyt=0.01, stack=[0, 30], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
p1, p2 = mk(), mk()
assy = MultiDomain([p1, p2], conn=[])
n = p1.get_size()
c = np.zeros(2*n); c[n:] = 1e-2*np.cos(np.arange(n) + 1.)
T = assy.calc_kT(c=c, silent=True).toarray()[n:, n:]
s = mk()
R = s.calc_kT(c=c[n:].copy()).toarray()
d = np.abs(T - R).max()/np.abs(R).max()
print(d)
raise SystemExit(d > 1e-9)
''')

seed('c15-bfx-rotation','C15',[('panels/multidomain/connections/kCBFxcte.pyx','kCBFxcte12v[c] += -2*b1*f1Awxi*f2Bwxi*g1Awf2Bw*kr/(a1*a2)','kCBFxcte12v[c] += -2*b1*f1Awxi*f2Bwxi*g1Awf2Bw*kr/(a1*a1)')],
 'base-flange joint along x=const between panels of different lengths','the coupling of the rotations uses the length of the first panel twice',
'''import numpy as np
from panels import Shell
from panels.multidomain import MultiDomain
def mk(a):
    return Shell(a=a, b=1., m=4, n=4, plyt=0.01, stack=[0, 90], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
p1, p2 = mk(2.), mk(0.5)
assy = MultiDomain([p1, p2], conn=[dict(p1=p1, p2=p2, func='BFxcte', xcte1=2., xcte2=0.)])
K = assy.get_kC_conn().toarray()
v = np.linalg.eigvalsh((K + K.T)/2)
print(v.min()/v.max())
raise SystemExit(v.min() < -1e-9*v.max())
''')

seed('c16-conn-kept','C16',[(MD,'''        if conn is None:
            if self.conn is None:
                raise RuntimeError('No connectivity dictionary defined!')
            conn = self.conn
''','''        if conn is None and self.conn is None:
            raise RuntimeError('No connectivity dictionary defined!')
        self.conn = conn = self.conn if conn is None else conn
''')],'a calculation with another connection list given as argument, then one without','the connection list given to one calculation replaces the one of the assembly',
'''import numpy as np
from panels import Shell
from panels.multidomain import MultiDomain
def mk():
    return Shell(a=2., b=1., m=4, n=4, plyt=0.01, stack=[0, 90], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
p1, p2 = mk(), mk()
assy = MultiDomain([p1, p2], conn=[dict(p1=p1, p2=p2, func='SSxcte', xcte1=2., xcte2=0.)])
K1 = assy.calc_kC(silent=True).toarray()
assy.calc_kC(conn=[dict(p1=p1, p2=p2, func='SSycte', ycte1=1., ycte2=0.)], silent=True)
K2 = assy.calc_kC(silent=True).toarray()
d = np.abs(K1 - K2).max()
print(d)
raise SystemExit(d > 0)
''')

seed('c17-lam-kept','C17',[(SH,'''        if self.stack is not None:
            lam = laminated_plate(''','''        if (self.lam is None or self.lam.offset != self.offset or list(self.lam.stack) != list(self.stack)
                or self.lam.h != sum(self.plyts)):
            lam = laminated_plate(''')],'change of the material (or density) after a calculation','the laminate is kept while stack, thickness and offset stay the same',
'''import numpy as np
from panels import Shell
def mk(E):
    return Shell(a=2., b=1., m=4, n=4, plyt=0.01, stack=[0, 90], laminaprop=(E, 7e9, .3, 5e9, 5e9, 5e9))
s = mk(70e9)
s.calc_kC()
s.laminaprop = (140e9, 7e9, .3, 5e9, 5e9, 5e9)
d = np.abs(s.calc_kC().toarray() - mk(140e9).calc_kC().toarray()).max()
print(d)
raise SystemExit(d > 0)
''')

seed('c18-blade2d-penalty','C18',[('panels/stiffener/bladestiff2d.py','            if self.base is None:\n                ktbf, krbf = calc_kt_kr(self.panel1','            if self.base is None or self.panel1 is self.panel2:\n                ktbf, krbf = calc_kt_kr(self.panel1')],
 'a 2D blade stiffener with base and flange at the edge of the bay, where both neighbours are the same panel','the connection penalties of base and flange are those of the skin',
'''import numpy as np
from panels.stiffpanelbay import StiffPanelBay
prop = (70e9, 7e9, .3, 5e9, 5e9, 5e9)
def mk(base):
    b = StiffPanelBay(); b.a = 2.; b.b = 1.; b.m = 4; b.n = 4
    b.stack = [0, 90]; b.plyt = 0.01; b.laminaprop = prop; b.rho = 1.
    b.add_panel(y1=0., y2=1.)
    b.add_bladestiff2d(ys=0., rho=1., bb=0.1 if base else None, bstack=[90]*6 if base else None, bplyt=0.01, blaminaprop=prop,
                       bf=0.3, fstack=[0, 0], fplyt=0.01, flaminaprop=prop, mf=4, nf=4)
    b.calc_kC(silent=True)
    return b
b1 = mk(True)
from panels.multidomain.connections import calc_kt_kr
s = b1.bladestiff2ds[0]
K = b1.kC.toarray()
n = 3*4*4
# coupling block skin-flange is proportional to kt, kr of base and flange
b0 = mk(False)
K0 = b0.kC.toarray()
s0 = b0.bladestiff2ds[0]
kt1, kr1 = calc_kt_kr(s.base, s.flange, 'ycte')
kt0, kr0 = calc_kt_kr(s0.panel1, s0.flange, 'ycte')
iu = np.arange(0, n, 3)
A = K[np.ix_(iu, n + iu)]; B = K0[np.ix_(iu, n + iu)]
d = np.abs(A - B*kt1/kt0).max()/np.abs(A).max()
print(d)
raise SystemExit(d > 1e-9)
''')

seed('c20-same-size','C20',[(SH,'        if xshape != yshape:\n','        if xs.size != ys.size:\n')],'arrays of points with the same number of entries but another shape','mismatched point arrays are accepted',
'''import numpy as np
from panels import Shell
s = Shell(a=2., b=1., m=4, n=4, plyt=0.01, stack=[0, 90], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9))
c = np.ones(s.get_size())
try:
    s.uvw(c, np.ones((2, 3)), np.ones((3, 2)))
except ValueError:
    raise SystemExit(0)
raise SystemExit(1)
''')

MK='''import numpy as np
from panels import Shell
def mk(**k):
    d = dict(a=2., b=1., m=4, n=4, plyt=0.01, stack=[0, 90], laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9), rho=1000.)
    d.update(k)
    return Shell(**d)
'''
seed('c19-blade-width','C19',[('panels/multidomain/cylinder_blade_stiffened.py','a=height, b=width_blades[i],','a=height, b=width_blades[0],')],
 'blades of different widths','every blade gets the width of the first one',
'''from panels.multidomain.cylinder_blade_stiffened import create_cylinder_blade_stiffened
assy, conns = create_cylinder_blade_stiffened(1., .5, [0, 90], [[0, 0]]*3, [.1, .2, .3], 1e-3, (70e9, 7e9, .3, 5e9, 5e9, 5e9), 3, m=4, n=4)
b = [p.b for p in assy.panels if 'blade' in p.group]
print(b)
raise SystemExit(int(b != [.1, .2, .3]))
''')
seed('c19-flutter-load','C19',[('panels/multidomain/tstiff2d_1stiff_flutter.py','            for p in [p07, p08, p09, p14, p15]:','            for p in [p07, p08, p09, p14]:')],
 'flutter analysis with the static case and a load on the flange','the load of the flange is not applied',
'''import numpy as np
from panels.multidomain.tstiff2d_1stiff_flutter import tstiff2d_1stiff_flutter
def run(nf):
    assy, c, e, v = tstiff2d_1stiff_flutter(a=1., b=.6, ys=.3, bb=.1, bf=.05, defect_a=0.1, rho=1500., plyt=1e-3, laminaprop=(70e9, 7e9, .3, 5e9, 5e9, 5e9),
        stack_skin=[0, 90, 90, 0], stack_base=[0, 90, 90, 0], stack_flange=[0, 90, 90, 0], air_speed=500., rho_air=0.3, Mach=2., speed_sound=343., flow='x',
        Nxx_skin=-1., Nxx_base=-1., Nxx_flange=nf, run_static_case=True, m=4, n=4)
    return c
d = np.abs(run(-1.) - run(-3.)).max()
print(d)
raise SystemExit(int(d == 0))
''')
SH='panels/shell.py'
seed('c09-kT-rule','C09',[(SH,'''            c=c, nx=nx, ny=ny, ABDnxny=ABDnxny, NLgeom=True)
        kT = kC + kG''','''            c=c, nx=nx, ny=nx, ABDnxny=ABDnxny, NLgeom=True)
        kT = kC + kG''')],
 'calc_kT with a different number of points along x and y, too few along x','the geometric part of the tangent is integrated with another rule',
MK+'''s = mk(m=4, n=6)
c = np.random.default_rng(0).normal(size=s.get_size())*1e-3
kT = s.calc_kT(c=c, nx=24, ny=40).toarray()
ref = s.calc_kC(c=c, nx=24, ny=40, NLgeom=True).toarray() + s.calc_kG(c=c, nx=24, ny=40, NLgeom=True).toarray()
kT2 = s.calc_kT(c=c, nx=5, ny=40).toarray()
ref2 = s.calc_kC(c=c, nx=5, ny=40, NLgeom=True).toarray() + s.calc_kG(c=c, nx=5, ny=40, NLgeom=True).toarray()
d = np.abs(kT2 - ref2).max()/np.abs(ref2).max()
print(d)
raise SystemExit(int(d > 1e-10))
''')
seed('c10-md-inc','C10',[('panels/multidomain/multidomain.py','            fext += p.calc_fext(inc=inc, size=size, col0=p.col_start,','            fext += p.calc_fext(inc=inc if p is self.panels[0] else 1., size=size, col0=p.col_start,')],
 'incremented loads on another panel than the first','the load factor only reaches the first panel',
MK+'''from panels.multidomain import MultiDomain
p, q = mk(), mk()
q.add_point_load(1., .5, 1., 0., 0., cte=False)
p.x2u = q.x1u = 1
A = MultiDomain([p, q])
d = np.abs(A.calc_fext(inc=.5, silent=True) - .5*A.calc_fext(inc=1., silent=True)).max()
print(d)
raise SystemExit(int(d > 1e-12))
''')
seed('c18-two-skins','C18',[('panels/stiffener/bladestiff2d.py','            h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)\n            hb = sum(self.bplyts)\n            self.dpb','            h = sum(self.panel1.plyts)\n            hb = sum(self.bplyts)\n            self.dpb')],
 '2D stiffener with a base between two panels of different thickness','the base is placed with the thickness of one of the neighbours',
'''import numpy as np
from panels.stiffpanelbay import StiffPanelBay
prop = (70e9, 7e9, .3, 5e9, 5e9, 5e9)
def mk(t1, t2):
    b = StiffPanelBay(); b.a = 2.; b.b = 1.; b.m = 4; b.n = 4
    b.stack = [0, 90]; b.laminaprop = prop; b.rho = 1.
    b.add_panel(y1=0., y2=.4, plyt=t1)
    b.add_panel(y1=.4, y2=1., plyt=t2)
    b.add_bladestiff2d(ys=.4, rho=1., bb=0.1, bstack=[90]*6, bplyt=0.01, blaminaprop=prop,
                       bf=0.3, fstack=[0, 0], fplyt=0.01, flaminaprop=prop, mf=4, nf=4)
    b.calc_kC(silent=True)
    return b.bladestiff2ds[0].base.offset
d = abs(mk(.01, .03) - mk(.03, .01))
print(d)
raise SystemExit(int(d > 1e-12))
''')
seed('c11-kphi-y','C11',[(SH,'            kPC += kphi*np.outer(gphiy, gphiy)','            kPC += kphi*np.outer(gphiy, gphiy)*(2 if phix and w else 1)')],
 'a point where w and both rotations are constrained','rotation about x twice as stiff',
MK+'''s = mk()
f = lambda **k: np.asarray((s.calc_kC()*0 + s.calc_stiffness_point_constraint(.7, .3, u=False, v=False, **k)).tolist() if not hasattr(s.calc_stiffness_point_constraint(.7, .3), 'toarray') else s.calc_stiffness_point_constraint(.7, .3, u=False, v=False, **k).toarray())
d = np.abs(f(w=True, phix=True, phiy=True) - f(w=True, phix=True) - f(w=False, phiy=True)).max()
print(d)
raise SystemExit(int(d > 1e-6))
''')

seed('c21-css-room','C21',[('panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx','''    fdim = 3*m*n*m*n

    kCssr''','''    fdim = 3*m*n*n*n

    kCssr''')],
 'a bay with more than twice as many terms along x as along y','the arrays of the skin part of the joint of a 2D blade have room for n*n*n*m blocks, the writes after that go outside of them',
'''import numpy as np
from panels.stiffener.models.bladestiff2d_clt_donnell_bardell import fkCss
one = [1.]*4
def entries(m, n):
    flags = [1., 1., 1., 1.]*6
    K = fkCss(2., 3., 0.4, 1.5, 1., m, n, *flags, 3*m*n, 0, 0)
    return K.row.shape[0], (K.data != 0).sum()
for m, n in ((3, 3), (2, 5), (3, 2)):
    entries(m, n)
bad = False
for m, n in ((12, 2), (9, 3)):
    have, used = entries(m, n)
    # three entries for each pair of blocks of the upper half, on the diagonal included
    need = 3*m*n*(m*n + 1)//2
    print(m, n, have, used, need)
    bad |= have < need
raise SystemExit(int(bad))
''')

seed('c21-fint-order','C21',[(PN,'''    weights_eta = np.zeros(ny, dtype=DOUBLE)

    leggauss_quad(nx, &xis[0], &weights_xi[0])
    leggauss_quad(ny, &etas[0], &weights_eta[0])

    fint = ''','''    weights_eta = np.zeros(nx, dtype=DOUBLE)

    leggauss_quad(nx, &xis[0], &weights_xi[0])
    leggauss_quad(ny, &etas[0], &weights_eta[0])

    fint = ''')],
 'more integration points along y than along x','the weights along y are written outside of their array',
'''import subprocess, sys
code = """
import numpy as np
from panels import Shell
def one(nx, ny):
    s = Shell(); s.a = 1.; s.b = 2.; s.m = s.n = 4; s.stack = [0., 30.]; s.plyt = 1e-3; s.laminaprop = (1e9, 1e9, .3, 4e8, 4e8, 4e8)
    return s.calc_fint(c, nx=nx, ny=ny)
c = np.linspace(-1e-3, 1e-3, 48)
ref = one(8, 8)
keep = []
for q in range(300):
    x = [np.full(4 + q % 7, float(q)) for _ in range(40)]
    keep += x[::3]
    y = one(8, 8 + q % 57)
    if not np.allclose(one(8, 64), ref) or not np.allclose(y, ref):
        raise SystemExit(3)
    if any((z != z[0]).any() for z in keep):
        raise SystemExit(4)
"""
r = subprocess.run([sys.executable, '-c', code])
print(r.returncode)
raise SystemExit(int(r.returncode != 0))
''')

seed('c17-bay-base-kept','C17',[('panels/stiffener/bladestiff1d.py','            self.base = Shell(a=bay.a, b=bay.b, r=bay.r,','            self.base = self.base or Shell(a=bay.a, b=bay.b, r=bay.r,')],
 'a panel next to a 1D stiffener with a base gets thicker after a calculation','the base is made only once and keeps the eccentricity of the first panel thickness',
'''import numpy as np
from panels.stiffpanelbay import StiffPanelBay
def bay(t):
    b = StiffPanelBay(); b.a = 2.; b.b = 1.; b.m = b.n = 4; b.stack = [0., 90.]; b.plyt = 1e-3; b.laminaprop = (1e9, 1e9, .3, 4e8, 4e8, 4e8); b.rho = 1000.
    b.add_panel(0, .5, plyts=[t, t]); b.add_panel(.5, 1., plyts=[t, t])
    b.add_bladestiff1d(ys=.5, bb=.2, bstack=[0.], bplyt=2e-3, blaminaprop=b.laminaprop)
    return b
x = bay(1e-3)
x.calc_kC(silent=True)
for p in x.panels:
    p.plyts = [5e-3, 5e-3]
d = abs(x.calc_kC(silent=True) - bay(5e-3).calc_kC(silent=True)).max()
print(d)
raise SystemExit(int(d > 1e-6*abs(x.kC).max()))
''')

seed('c22-zero-end','C22',[('panels/plot_shell.py','''    if vecmax is None:
        vecmax = field.max()''','''    if not vecmax:
        vecmax = field.max()''')],
 'the upper end of the levels is given as zero','a zero given as the upper end counts as not given',
'''import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from panels import Shell
from panels.plot_shell import plot_shell
s = Shell(); s.a = 1.; s.b = 2.; s.m = s.n = 4; s.stack = [0., 30.]; s.plyt = 1e-3; s.laminaprop = (1e9, 1e9, .3, 4e8, 4e8, 4e8)
for k in ('x1w', 'x2w', 'y1w', 'y2w'):
    setattr(s, k, 1.)
c = np.linspace(-1, 2, 48)
ax = plt.figure().add_subplot(111)
seen = []
real = ax.contourf
ax.contourf = lambda *a, **k: (seen.append(np.array(k['levels'] if 'levels' in k else a[3])), real(*a, **k))[1]
plot_shell(s, c, ax=ax, gridx=5, gridy=6, num_levels=5, vecmin=-2., vecmax=0.)
print(seen[0])
raise SystemExit(int(not np.allclose(seen[0], np.linspace(-2, 0, 5))))
''')

seed('c22-flange-restore','C22',[('panels/stiffpanelbay/stiffpanelbay.py','''            if not filename:
                filename = 'test.png'
            fig.savefig(filename, transparent=True,
                        bbox_inches='tight', pad_inches=0.05, dpi=dpi)
            plt.close()

        if ubkp is not None:
            self.u = ubkp
        if vbkp is not None:
            self.v = vbkp
        if wbkp is not None:
            self.w = wbkp
        if phixbkp is not None:
            self.phix = phixbkp
        if phiybkp is not None:
            self.phiy = phiybkp

        msg('finished!', silent=silent)

        return ax


    def save(self):''','''            if not filename:
                filename = 'test.png'
            fig.savefig(filename, transparent=True,
                        bbox_inches='tight', pad_inches=0.05, dpi=dpi)
            plt.close()

            if ubkp is not None:
                self.u = ubkp
            if vbkp is not None:
                self.v = vbkp
            if wbkp is not None:
                self.w = wbkp
            if phixbkp is not None:
                self.phix = phixbkp
            if phiybkp is not None:
                self.phiy = phiybkp

        msg('finished!', silent=silent)

        return ax


    def save(self):''')],
 'a flange plotted without saving, after the fields of the skin were calculated','the earlier fields come back only when the plot is saved',
'''import numpy as np
import matplotlib
matplotlib.use('Agg')
from panels.stiffpanelbay import StiffPanelBay
b = StiffPanelBay(); b.a = 2.; b.b = 1.; b.m = b.n = 4; b.stack = [0., 90.]; b.plyt = 1e-3; b.laminaprop = (1e9, 1e9, .3, 4e8, 4e8, 4e8); b.rho = 1000.
b.add_panel(0, .5, plyt=1e-3); b.add_panel(.5, 1., plyt=1e-3)
b.add_bladestiff2d(ys=.5, bf=.2, fstack=[0.], fplyt=2e-3, flaminaprop=b.laminaprop, mf=4, nf=4)
c = np.linspace(-1, 2, b.get_size())
b.uvw_skin(c, gridx=4, gridy=5)
ref = b.w.copy()
b.plot_stiffener(c, 0, vec='w', gridx=6, gridy=5, save=False, silent=True)
raise SystemExit(int(b.w.shape != ref.shape or not np.array_equal(b.w, ref)))
''')

seed('c20-bay-long-vector','C20',[('panels/stiffpanelbay/stiffpanelbay.py','''        if c.shape[0] == self.get_size():
            dofs''','''        if c.shape[0] >= self.get_size():
            dofs''')],
 'the fields of a bay from a vector longer than the bay','a vector with more entries than the bay has degrees of freedom is cut instead of rejected',
'''import numpy as np
from panels.stiffpanelbay import StiffPanelBay
b = StiffPanelBay(); b.a = 2.; b.b = 1.; b.m = b.n = 4; b.stack = [0., 90.]; b.plyt = 1e-3; b.laminaprop = (1e9, 1e9, .3, 4e8, 4e8, 4e8); b.rho = 1000.
b.add_panel(0, 1., plyt=1e-3)
n = b.get_size()
b.uvw_skin(np.ones(n), gridx=3, gridy=3)
try:
    b.uvw_skin(np.ones(n + 3), gridx=3, gridy=3)
except Exception as x:
    print(repr(x))
    raise SystemExit(0)
raise SystemExit(1)
''')

seed('c18-ply-centroid','C18',[('panels/stiffener/bladestiff1d.py','yply = self.flam.plies[0].h/2.','yply = self.flam.plies[-1].h/2.')],
 'a beam stiffener whose flange has off-axis plies of different thicknesses','the distances of the plies start from half the thickness of the last ply instead of the first',
'''import numpy as np
from panels.stiffpanelbay import StiffPanelBay
prop = (10., 1., .25, 5., 5., 5.)
t = [.01, .04]
b = StiffPanelBay(); b.a = 2.; b.b = 1.; b.m = b.n = 4; b.stack = [0., 90.]; b.plyt = 1e-2; b.laminaprop = prop; b.rho = 1.
b.add_panel(0, .5, plyt=1e-2); b.add_panel(.5, 1., plyt=1e-2)
s = b.add_bladestiff1d(ys=.5, bf=.2, fstack=[30., 60.], fplyts=t, flaminaprops=[prop, prop])
b.calc_kC(silent=True)
mid = [t[0]/2, t[0] + t[1]/2]
want = sum(-z*p.h*(p.q16L - p.q12L*p.q16L/p.q22L) for z, p in zip(mid, s.flam.plies))
print(s.S1, want)
raise SystemExit(int(abs(s.S1 - want) > 1e-9*abs(want)))
''')

seed('c18-beam-mass-skins','C18',[('panels/stiffener/bladestiff1d.py','''            h = 0.5*sum(self.panel1.plyts) + 0.5*sum(self.panel2.plyts)
            kM''','''            h = sum(self.panel1.plyts)
            kM''')],
 'a beam stiffener between two strips of different thicknesses','the mass of the flange is placed as if both strips had the thickness of the first one',
'''import numpy as np
from panels.stiffpanelbay import StiffPanelBay
prop = (10., 1., .25, 5., 5., 5.)
def mass(t1, t2):
    b = StiffPanelBay(); b.a = 2.; b.b = 1.; b.m = b.n = 4; b.laminaprop = prop; b.rho = 1.; b.stack = [0.]
    b.add_panel(0, .5, stack=[0.], plyt=t1); b.add_panel(.5, 1., stack=[0.], plyt=t2)
    s = b.add_bladestiff1d(ys=.5, bf=.2, fstack=[0.], fplyt=.03, flaminaprop=prop)
    b.calc_kM(silent=True)
    s.calc_kM(size=b.get_size(), silent=True, finalize=True)
    return s.kM.toarray()
# the mean thickness is what counts
A, B = mass(.02, .06), mass(.06, .02)
print(abs(A - B).max(), abs(A).max())
raise SystemExit(int(abs(A - B).max() > 1e-9*abs(A).max()))
''')

seed('c20-law-one-side','C20',[('panels/multidomain/connections/penalties.py','if pA.a != pB.a or pA.b != pB.b:','if pA.a != pB.a and pA.b != pB.b:')],
 'a separation law between two faces of which one side differs','faces of the same length and different widths are accepted by the separation law',
'''from panels.shell import Shell
from panels.multidomain import MultiDomain, connections
def mk(a, b):
    return Shell(a=a, b=b, m=3, n=3, stack=[0.], plyt=.1, laminaprop=(10., 1., .25, 5., 5., 5.), group='g')
connections.calc_kw_tsl(mk(2., 1.), mk(2., 1.), 'linear')
bad = 0
for a, b in ((2., 1.5), (3., 1.), (3., 2.)):
    try:
        connections.calc_kw_tsl(mk(2., 1.), mk(a, b), 'linear')
        bad += 1
        print('accepted', a, b)
    except ValueError as x:
        print(x)
raise SystemExit(int(bad > 0))
''')

seed('c19-perturbation-sign','C19',[('panels/multidomain/cylinder.py','p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -SPLA, cte=True)','p_spla.add_point_load(p_spla.a/2, p_spla.b/2, 0, 0, -abs(SPLA), cte=True)')],
 'a perturbation load that pulls outwards','the perturbation load of the cylinder always points inwards, whatever its sign',
'''from panels.multidomain.cylinder import cylinder_spla
prop = (12., 1., .4, 1.5, 1.5, .5)
got = {}
for sign in (1, -1):
    assy, incs, cs = cylinder_spla(1., .5, [0., 90., 0.], .1, prop, 3, -1e-4, sign*1e-3, m=4, n=4)
    got[sign] = [f[4] for p in assy.panels for f in p.point_loads]
print(got)
raise SystemExit(int(got[1] != [-1e-3] or got[-1] != [1e-3]))
''')

seed('c15-law-thickness','C15',[('panels/multidomain/multidomain.py','''                print(kt)
                
                dsb = sum(pA.plyts)/2. + sum(pB.plyts)/2.''','''                print(kt)
                
                dsb = sum(pA.plyts)/2. + sum(pA.plyts)/2.''')],
 'a separation law between two laminates of different thicknesses','the distance between the reference surfaces is that of two laminates like the first',
'''import numpy as np
from panels.shell import Shell
from panels.multidomain import MultiDomain
def mk(t):
    s = Shell(a=2., b=1., m=4, n=4, stack=[0.], plyt=t, laminaprop=(10., 1., .25, 5., 5., 5.), group='g')
    for k in 'uvw':
        for e in ('x1', 'x2', 'y1', 'y2'):
            setattr(s, e + k, 1); setattr(s, e + k + 'r', 1)
    return s
def conn(t1, t2):
    p, q = mk(t1), mk(t2)
    A = MultiDomain([p, q])
    return A.get_kC_conn(conn=[dict(p1=p, p2=q, func='SB_TSL', tsl_type='linear')]).toarray()
# half the sum of the thicknesses is what counts
A, B = conn(.02, .3), conn(.3, .02)
print(abs(A - B).max(), abs(A).max())
raise SystemExit(int(abs(A - B).max() > 1e-9*abs(A).max()))
''')
