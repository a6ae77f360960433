import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,anchors=a))
M='panels/models/'
p('C01','Approximation functions equal the hierarchical polynomial definition',
 'For every series term up to the supported maximum of 30, every natural coordinate in [-1, 1] and any four edge flags, the evaluated approximation function and its first and second derivatives equal the hierarchical (Bardell) polynomials: four cubic Hermite functions scaled by the translation and rotation flags of the two edges, then higher terms whose value and slope vanish at both edges. Evaluating one term and evaluating all terms at once give the same numbers.',
 ['inputs'],'all 30 terms, all coordinates in [-1,1], all flag values, value and two derivatives, single and vector evaluation',
 'The tests only compare end results (eigenvalues, one deflection) at a few series sizes; a wrong coefficient in a term they do not reach, or that changes a result within their tolerance, passes.',
 ['panels/core/src/bardell_functions.cpp','panels/bardell.pyx'],[('hard-coded polynomial coefficients per term','panels/core/src/bardell_functions.cpp: f, fp, fpp, vec_f, vec_fp, vec_fpp')],['panels.bardell.calc_f/fp/fpp and calc_vec_f/fp/fpp'])
p('C02','Closed-form one-dimensional integrals are exact for every pair of terms',
 'For every pair of series terms up to 30 and any two sets of edge flags, each tabulated closed-form integral over [-1, 1] of a product of approximation functions or their first/second derivatives equals the exact integral of that product.',
 ['inputs'],'30 x 30 pairs, six derivative combinations, all flag values on both factors',
 'About 5400 table entries; the tests touch a subset only through eigenvalues of a few plates.',
 ['panels/core/src/bardell.cpp','panels/bardell.pyx'],[('hard-coded integral tables','panels/core/src/bardell.cpp: integral_ff, ffp, ffpp, fpfp, fpfpp, fppfpp')],['panels.bardell.calc_integral_*'])
p('C03','Numerical integration rule is the exact Gauss-Legendre rule for 2 to 64 points',
 'For every supported number of points n from 2 to 64, the integration points lie strictly inside (-1, 1), are distinct and symmetric, the weights are positive, and the rule integrates every polynomial of degree up to 2n-1 exactly.',
 ['inputs'],'all n in 2..64, all polynomial degrees 0..2n-1',
 'Tests use only two or three values of n, and only through quantities that average over points.',
 ['panels/core/src/legendre_gauss_quadrature.cpp','panels/legendre_gauss_quadrature.pyx'],[('hard-coded point and weight tables','panels/core/src/legendre_gauss_quadrature.cpp: leggauss_quad')],['panels.legendre_gauss_quadrature.get_points_weights'])
p('C04','Displacement and rotation fields are the series evaluated at the given points',
 'For any coefficient vector, boundary flags and set of points (any array shape or default grid, any number of worker threads), the returned u, v, w equal the double series of approximation functions and the rotations equal minus the derivatives of w along x and y, point by point and independently of which other points were requested. Along an edge whose flag is zero the corresponding displacement (or rotation) vanishes. A multi-domain model or a stiffened bay returns, for each domain of the requested group (skin or stiffener region) in order, the field of that part computed with its own slice of the coefficients on its own grid.',
 ['inputs','configurations'],'all coefficient vectors, point sets and shapes, thread counts, geometry, flags, series sizes; all assemblies, groups and grids',
 'The one test of field outputs compares a maximum with a stored number on one grid.',
 ['panels/shell.py','panels/multidomain/multidomain.py',M+'clpt_bardell_field.pyx'],[('parallel field evaluation in chunks per core',M+'clpt_bardell_field.pyx: fuvw, cfuvw, cfwx, cfwy'),('point grids and reshaping','panels/shell.py: _default_field, uvw; panels/multidomain/multidomain.py: default_field, uvw, uvw_gauss_points')],['Shell.uvw','MultiDomain.uvw','MultiDomain.uvw_gauss_points'])
p('C05','Strains and stress resultants follow the shell kinematics and laminate law',
 'For any coefficients and points, membrane strains equal the Donnell relations (including v,y + w/r for curved shells and, when nonlinear terms are requested, w,x^2/2, w,y^2/2 and w,x w,y), curvatures equal -w,xx, -w,yy, -2 w,xy, and stress resultants equal the 6x6 laminate stiffness times those six components. A multi-domain model returns the same for each domain of the group with its own coefficients, laminate and grid.',
 ['inputs','configurations'],'all coefficients, points, thread counts, radii, laminates (including offset and fully coupled), linear and nonlinear, single and multi domain',
 'Existing tests compare extreme values with stored numbers for one symmetric laminate and small rotations, where the coupling and product terms vanish or cannot be seen.',
 ['panels/shell.py','panels/multidomain/multidomain.py',M+'clpt_bardell_field.pyx'],[('strain kernel',M+'clpt_bardell_field.pyx: fstrain, cfstrain'),('constitutive product','panels/shell.py: stress; panels/multidomain/multidomain.py: stress, stress_gauss_points')],['Shell.strain','Shell.stress','MultiDomain.strain/stress and *_gauss_points'])
p('C06','Constitutive stiffness is the exact Hessian of the strain energy',
 'For any geometry, curvature, laminate (with all couplings, any reference-surface offset), boundary flags and series sizes, the constitutive stiffness matrix is symmetric and its bilinear form equals the integral of the two linearised strain fields contracted with the laminate stiffness; it is positive semi-definite and gives zero energy for rigid translations. The closed-form and the numerically integrated paths agree, the numerical path also for stiffness that varies from point to point and for strains linearised about a given displacement state, and a prescribed constant membrane load adds its geometric contribution once.',
 ['inputs','configurations'],'all geometries, laminates, flags, series sizes, coefficient vectors, integration orders that are exact, constant and variable stiffness, linear and about a state',
 'Tests check a few buckling loads and frequencies for symmetric or balanced laminates; most coupling terms vanish there.',
 ['panels/shell.py',M+'plate_clpt_donnell_bardell.pyx',M+'plate_clpt_donnell_bardell_num.pyx',M+'cylshell_clpt_donnell_bardell.pyx',M+'cylshell_clpt_donnell_bardell_num.pyx'],[('closed-form kernel','fk0 in the plate and cylshell models'),('numerical kernel','fkC_num in the plate and cylshell *_num models'),('dispatch and symmetrisation','panels/shell.py: calc_kC')],['Shell.calc_kC'])
p('C07','Geometric stiffness is the work of the membrane forces on the nonlinear strains',
 'The geometric stiffness matrix is symmetric and its bilinear form equals the integral of Nxx w1,x w2,x + Nyy w1,y w2,y + Nxy (w1,x w2,y + w1,y w2,x), where the membrane forces are the prescribed uniform ones plus, when a displacement state is given, those of that state (with or without its nonlinear strains) through the laminate stiffness. It is linear in the membrane forces, and closed-form and numerical paths agree.',
 ['inputs','configurations'],'all membrane force combinations, states, geometries, laminates, flags and series sizes',
 'Tests exercise mostly Nxx alone and symmetric laminates; Nxy, coupling and nonlinear parts are not observable in them.',
 ['panels/shell.py',M+'plate_clpt_donnell_bardell_num.pyx',M+'cylshell_clpt_donnell_bardell_num.pyx',M+'plate_clpt_donnell_bardell.pyx',M+'cylshell_clpt_donnell_bardell.pyx'],[('closed-form kernel','fkG0'),('numerical kernel','fkG_num'),('dispatch','panels/shell.py: calc_kG, calc_kC (constant part)')],['Shell.calc_kG'])
p('C08','Mass matrix is the exact kinetic energy, including offset and rotary inertia',
 'The mass matrix is symmetric and its bilinear form equals the integral over the shell domain of the through-thickness kinetic energy of velocities u - z w,x, v - z w,y, w, for any density, thickness and reference-surface offset; it is positive semi-definite. Closed-form and numerical paths agree, and the numerical one also holds for thickness and density that vary from point to point.',
 ['inputs','configurations'],'all geometries, densities, thickness fields, offsets, flags, series sizes',
 'One frequency test with zero offset is the only existing check.',
 ['panels/shell.py',M+'plate_clpt_donnell_bardell.pyx',M+'plate_clpt_donnell_bardell_num.pyx',M+'cylshell_clpt_donnell_bardell.pyx',M+'cylshell_clpt_donnell_bardell_num.pyx'],[('closed-form kernel','fkM'),('numerical kernel','fkM_num'),('dispatch','panels/shell.py: calc_kM')],['Shell.calc_kM'])
p('C09','Internal force is the energy gradient and the tangent stiffness its Jacobian',
 'For any displacement state the internal force vector equals the gradient of the geometrically nonlinear strain energy at that state (so it is zero at zero and reduces to stiffness times displacement for small states), and the tangent stiffness is symmetric and equals the derivative of the internal force, for flat and curved shells, constant or point-wise varying laminate stiffness, single shells and assemblies.',
 ['inputs','configurations'],'all states (large rotations), geometries, radii, laminates, series sizes; single and multi domain',
 'Newton iterations in the nonlinear tests converge even with an inexact tangent, and the tests compare one deflection loosely.',
 ['panels/shell.py','panels/multidomain/multidomain.py',M+'plate_clpt_donnell_bardell_num.pyx',M+'cylshell_clpt_donnell_bardell_num.pyx'],[('internal force kernel','calc_fint in the *_num models'),('tangent = constitutive + geometric about the state','panels/shell.py: calc_kT; fkC_num, fkG_num with NLgeom')],['Shell.calc_fint','Shell.calc_kT','MultiDomain.calc_fint','MultiDomain.calc_kT'])
p('C10','External force vector is the virtual work of every registered load',
 'The external force vector\'s product with any coefficient vector equals the work of all registered point and line loads on that displacement field: constant loads once, incremental loads times the load factor, each at its own position and in its own direction. It is additive over loads and independent of their order, and zero when nothing is applied, for single shells, multi-domain models and stiffened bays (skin and flange loads).',
 ['inputs','histories'],'all load sets (point and line along x or y, each component, constant and incremental), load factors, positions, series sizes, line loads polynomial up to the degree the rule integrates',
 'Tests apply one or two loads of one kind in one direction.',
 ['panels/shell_fext.py','panels/shell.py',M+'clpt_bardell_field.pyx'],[('load registration','panels/shell.py: add_point_load, add_distr_load_fixed_x, add_distr_load_fixed_y'),('accumulation','panels/shell_fext.py: shell_fext')],['Shell.calc_fext'],
 [('point_loads, point_loads_inc, distr_loads, distr_loads_inc','registered loads','panels/shell.py')])
p('C11','Prescribed displacements and point constraints are consistent penalties',
 'Enforcing a displacement at a point or along a line contributes a force equal to the penalty constant times the target work on any displacement field, and the matching penalty stiffness has the bilinear form penalty times product of the constrained displacement components (or rotations) over the same point or line, each component acting only on its own displacement. Incremental targets scale with the load factor; penalty stiffnesses are symmetric and positive semi-definite.',
 ['inputs','histories'],'all positions, components, penalties, target functions, constant and incremental, point and line',
 'Tests use one prescribed component on one edge.',
 ['panels/shell.py','panels/shell_fext.py','panels/multidomain/connections/kCpd.pyx','panels/multidomain/connections/penalties.py'],[('force part','panels/shell.py: add_point_pd, add_distr_pd_fixed_x, add_distr_pd_fixed_y; panels/shell_fext.py'),('stiffness part','panels/multidomain/connections/kCpd.pyx: fkCpd, fkCld_xcte, fkCld_ycte'),('point constraints','panels/shell.py: calc_stiffness_point_constraint')],['Shell.calc_fext','connections.kCpd.*','Shell.calc_stiffness_point_constraint'])
p('C12','Aerodynamic matrices follow linear piston theory',
 'The aerodynamic matrix couples only the out-of-plane displacement; its convective part is skew-symmetric for shells with supported edges and equals the dynamic-pressure parameter times the integral of w1 times the streamwise derivative of w2 for flow along x or y, and the parameter follows from density, speed and Mach number unless given directly. For curved shells the curvature correction adds a symmetric part proportional to the integral of w1 w2, and aerodynamic damping is proportional to the same integral.',
 ['inputs','configurations'],'all Mach numbers above 1, densities, speeds, flow directions, radii, geometries, flags',
 'One test compares a flutter eigenvalue for a flat simply supported plate.',
 ['panels/shell.py',M+'plate_clpt_donnell_bardell_num.pyx',M+'cylshell_clpt_donnell_bardell_num.pyx',M+'plate_clpt_donnell_bardell.pyx',M+'cylshell_clpt_donnell_bardell.pyx'],[('parameters','panels/shell.py: calc_kA, calc_cA'),('kernels','fkAx_num, fkAy_num, fcA')],['Shell.calc_kA','Shell.calc_cA'])
p('C13','Domain integrals are additive over partitions and embed exactly at any offset',
 'Stiffness, geometric stiffness, mass, aerodynamic matrices and internal forces integrated numerically over a rectangular part of the shell equal the exact integral over that part, so the parts of any partition add up to the whole-domain result; refining an already exact integration order changes nothing. Placing a result at any row/column offset in a larger matrix or vector moves it without changing it and leaves all other entries zero.',
 ['inputs','configurations'],'all rectangles, partitions, integration orders, offsets and target sizes',
 'One test splits one domain once and checks one matrix.',
 ['panels/shell.py',M+'plate_clpt_donnell_bardell_num.pyx',M+'cylshell_clpt_donnell_bardell_num.pyx'],[('sub-domain mapping','x1, x2, y1, y2 handling in the *_num kernels'),('offset placement','row0, col0, size in every kernel and in panels/shell.py')],['Shell.calc_kC/kG/kM/kA/fint with x1,x2,y1,y2, nx, ny, size, row0, col0'])
p('C14','Assembled matrices and vectors are the sum of each domain at its own place',
 'In a multi-domain model every domain owns one contiguous range of degrees of freedom, ranges are disjoint and ordered as the domains were given, and each assembled quantity (stiffness, geometric stiffness, mass, tangent, internal and external force) equals the sum of each domain\'s own contribution in its own range, plus the connection stiffness where it applies. State-dependent quantities use only the part of the global vector that belongs to the domain.',
 ['configurations','inputs'],'all lists of domains with different series sizes, radii, laminates, loads; with and without a global state',
 'Tests assemble fixed configurations and check one eigenvalue or field value.',
 ['panels/multidomain/multidomain.py','panels/shell.py'],[('range allocation','panels/multidomain/multidomain.py: MultiDomain.__init__, get_size'),('assembly loops','panels/multidomain/multidomain.py: calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext')],['MultiDomain.calc_*'],
 [('row_start, col_start, row_end, col_end','degree-of-freedom range of a domain','panels/shell.py, panels/multidomain/multidomain.py')])
p('C15','Connection stiffness is the penalty energy of the gap between joined domains',
 'For each connection type the connection matrix is symmetric, positive semi-definite and its bilinear form equals the penalty energy of the relative displacement (and, for edge joints, relative rotation) between the two domains along the joined lines or area, so it is zero exactly for compatible fields. The penalty constants depend symmetrically on both laminates as published, contributions of several connections add up, and the result does not depend on the order of the connections or on which domain comes first in the assembly.',
 ['configurations','inputs'],'all connection types, positions on either domain, geometries, laminates, series sizes, domain orders, numbers of connections',
 'Tests cover two connection types at domain edges and check one scalar result; terms that cancel there are invisible.',
 ['panels/multidomain/multidomain.py','panels/multidomain/connections/kCSSxcte.pyx','panels/multidomain/connections/kCSSycte.pyx','panels/multidomain/connections/kCBFxcte.pyx','panels/multidomain/connections/kCBFycte.pyx','panels/multidomain/connections/kCSB.pyx','panels/multidomain/connections/penalties.py'],[('connection kernels','panels/multidomain/connections/*.pyx'),('penalty constants','panels/multidomain/connections/penalties.py: calc_kt_kr, calc_kw_tsl'),('dispatch','panels/multidomain/multidomain.py: get_kC_conn')],['MultiDomain.get_kC_conn','connections.calc_kt_kr'])
p('C16','Assembly results do not depend on call history and never alter their inputs',
 'Whatever sequence of calculations was made before, in whatever order and however often, an assembly returns the same matrices, vectors and fields as a freshly built one with the same definition. No calculation alters the connection list, the coefficient vector or any other argument, and several assemblies built over the same domains in turn, or over the same connection list, each return correct results.',
 ['histories'],'all finite sequences of assembly calls, repeated and interleaved, shared connection lists, explicit or default connections',
 'Every test builds an assembly once and calls each calculation once in a fixed order.',
 ['panels/multidomain/multidomain.py'],[('connection cache','panels/multidomain/multidomain.py: get_kC_conn (kC_conn)'),('per-call reads of the definition','panels/multidomain/multidomain.py: calc_*')],['MultiDomain.*'],
 [('kC_conn','cached connection matrix','panels/multidomain/multidomain.py'),('conn','user connection list','panels/multidomain/multidomain.py')])
p('C17','Shell results depend only on the current definition, not on earlier calls',
 'After any sequence of attribute changes, load registrations and calculations, every result of a shell or stiffened bay equals that of a new one given the same final definition; calculations never change the definition or their arguments. Saving and loading a shell or bay preserves its definition and therefore all its results.',
 ['histories'],'all finite sequences of attribute changes (geometry, laminate, material, series sizes, flags, loads, flow), calculations and save/load',
 'Tests construct a shell, set it up once and calculate once.',
 ['panels/shell.py','panels/shell_fext.py'],[('lazy derivation of laminate data','panels/shell.py: _rebuild'),('aerodynamic parameters','panels/shell.py: calc_kA'),('persistence','panels/shell.py: save, load')],['Shell.*'],
 [('plyts, laminaprops, rhos, lam, ABD, model, nx, ny, beta, gamma','derived or cached data','panels/shell.py')])
p('C18','Stiffened bays equal the sum of their skin panels and stiffener energies',
 'A stiffened panel bay\'s stiffness, geometric stiffness and mass equal the sum over its skin panels restricted to their own strip, the stiffener bases and flanges, and the skin-flange connections, with blade stiffeners modelled as beams contributing the axial, bending, torsion and inertia energy of the flange at its eccentric position. The matrices are symmetric, the mass is positive semi-definite, and adding stiffeners in another order gives the same skin contribution.',
 ['configurations','inputs'],'all bays (flat and curved), stiffener positions, base/flange laminates and sizes, series sizes',
 'No stable test exercises the bay classes at all.',
 ['panels/stiffpanelbay/stiffpanelbay.py','panels/stiffener/bladestiff1d.py','panels/stiffener/bladestiff2d.py','panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx','panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx'],[('summation','panels/stiffpanelbay/stiffpanelbay.py: calc_kC, calc_kG, calc_kM'),('beam stiffener','fkCf, fkGf, fkMf'),('plate stiffener','fkCss, fkCsf, fkCff')],['StiffPanelBay.calc_*','BladeStiff1D.calc_*','BladeStiff2D.calc_*'])
p('C19','Ready-made assemblies reproduce the structure their parameters describe',
 'For any number of panels, stiffeners, geometry, laminates, loads and series sizes, the ready-made cylinder, stiffened-cylinder and T-stiffened-panel models consist of the domains and connections their parameters describe (a closed ring of equal sectors, one seam per neighbour pair, stiffener parts on their strips), every domain carries its own load and laminate, and the returned eigenvalues and modes satisfy the eigenproblem of the assembled matrices.',
 ['configurations','inputs'],'all panel counts, per-panel load lists, geometries, laminates, series sizes the models accept',
 'Tests run each model with one parameter set, uniform loads and one stored eigenvalue.',
 ['panels/multidomain/cylinder.py','panels/multidomain/cylinder_blade_stiffened.py','panels/multidomain/tstiff2d_1stiff_compression.py','panels/multidomain/tstiff2d_1stiff_freq.py','panels/multidomain/tstiff2d_1stiff_flutter.py'],[('builders','create_cylinder, create_cylinder_blade_stiffened, tstiff2d_*'),('load application','lb_Nxx_cte, lb_Nxx_from_static, spla')],['returned assemblies, eigenvalues and modes'])
p('C20','Ill-posed requests are rejected and leave the model unchanged',
 'Requests that cannot be honoured (coefficient vector of the wrong type or length, missing laminate or thickness data, unknown model, more series terms than there are approximation functions, numbers of integration points without a rule, subsonic or missing Mach number, unknown flow direction, line loads or prescribed displacements without any function or with an incomplete pair, unknown connection type, mismatched point arrays, sampling points given for neither direction) raise an error instead of returning numbers. After the rejection the model behaves exactly as if the request had not been made.',
 ['inputs','histories'],'all listed kinds of ill-posed request, at any point of a history',
 'No test checks any rejection.',
 ['panels/shell.py','panels/multidomain/multidomain.py','panels/shell_fext.py'],[('argument checks','panels/shell.py: check_c, _rebuild, calc_kA, add_distr_*; panels/multidomain/multidomain.py: get_kC_conn, calc_kC')],['exceptions raised by the public API'])
p('C21','No calculation reads or writes memory outside its own arrays',
 'For any admissible definition and arguments (numbers of series terms in either direction, integration and field points, worker threads, rectangles, placements in a larger matrix, connections, stiffeners, loads), no calculation reads or writes memory outside the arrays it was given or allocated, or memory that was released. In particular every contribution of a matrix fits the room reserved for it, and results do not depend on what happened to be in memory.',
 ['inputs','configurations','histories'],'all definitions, arguments and histories generated for the other properties, including lopsided and single-term series and more threads than points',
 'An access a few elements past an array usually goes unnoticed: the values are right and nothing crashes on the configurations the tests run.',
 ['panels/core/src/bardell.cpp','panels/core/src/bardell_functions.cpp','panels/core/src/legendre_gauss_quadrature.cpp',M+'clpt_bardell_field.pyx',M+'plate_clpt_donnell_bardell.pyx',M+'plate_clpt_donnell_bardell_num.pyx',M+'cylshell_clpt_donnell_bardell.pyx',M+'cylshell_clpt_donnell_bardell_num.pyx','panels/multidomain/connections/kCSSxcte.pyx','panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx'],[('room for the terms of sparse matrices','fdim in every kernel'),('points shared among worker threads',M+'clpt_bardell_field.pyx'),('table lookups by term and order','panels/core/src/*.cpp')],['an address-sanitizer build of the extensions, under every public calculation'])
p('C22','Contour plots show the requested component where each part lies',
 'A contour plot of a shell, of a group of domains of an assembly, or of the skin or a flange of a bay draws, for every part in turn, the values of the requested component over the grid or points asked for, at the position of that part (moved by the scaled displacements when a deformed plot is asked for), with levels evenly spaced between the extremes over all parts or the ends given; strains and resultants follow the requested nonlinearity. It draws on the axes given or returns the ones it made, reports the extremes, writes the image only when asked to, and leaves fields calculated earlier as they were.',
 ['inputs','configurations'],'all components, coefficients, grids and point arrays, offsets and starting positions (also unset), scale factors, level counts and ends, groups, stiffeners, with and without axes, colour bar, saving',
 'The tests only draw plots into files nobody compares; a plot of the wrong component, place or scale passes.',
 ['panels/plot_shell.py','panels/multidomain/multidomain.py','panels/stiffpanelbay/stiffpanelbay.py'],[('shell plot','panels/plot_shell.py: plot_shell'),('group plot','panels/multidomain/multidomain.py: plot'),('bay plots','panels/stiffpanelbay/stiffpanelbay.py: plot_skin, plot_stiffener')],['plot_shell','MultiDomain.plot','StiffPanelBay.plot_skin','StiffPanelBay.plot_stiffener'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import re
for x in P:
    n=len(re.findall(r'[.](?:\s|$)',x['statement'])); print(x['id'],n,len(x['title']))
