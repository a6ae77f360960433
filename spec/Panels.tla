------------------------------- MODULE Panels -------------------------------
(***************************************************************************)
(* The system as a state machine.  The state holds the definition of every *)
(* shell, connection list, assembly and stiffened bay the user has made;   *)
(* it changes only by the actions that define (shell, set, load, conns,    *)
(* asm, bay).  Every                                                       *)
(* calculation leaves the state alone, and what it must return is a        *)
(* function of the current state and of its arguments.                     *)
(***************************************************************************)
EXTENDS Kernels, Bay, Builder

Empty == [shells |-> <<>>, conns |-> <<>>, asms |-> <<>>, bays |-> <<>>]

\* Tolerance for a result whose absolute terms sum to s; the aerodynamic factors (differences of nearby squares) are known less well.
Tol(s) == RAdd(RMul(Pow10(-13), s), Pow10(-15))
Less(s) == RMul(100, RAbs(s))
Ok(text, exact, scale) == Near(text, exact, Tol(scale))

-----------------------------------------------------------------------------
(* Matrices.  An observed matrix is [shape, finite, asym, out, forms]: asym *)
(* the largest difference to its transpose, out the largest entry outside   *)
(* the rows and columns of the domain, forms[i][j] the bilinear form of the *)
(* vectors i and j of the event.                                            *)
SizeOf(D, e) == Num(D) + e.pad
MatrixClauses(e, size, want(_, _), scale(_, _), symmetric) ==
  LET o == e.obs
      n == Len(e.vecs)
      Bad(i, j) == LET x == want(i, j) IN
        IF Ok(o.forms[i][j], x, scale(i, j)) THEN <<>>
        ELSE Fail(e.op \o " form " \o ToString(i) \o "," \o ToString(j), o.forms[i][j], x)
  IN  IF o.shape # <<size, size>> THEN <<FailT(e.op \o " shape", ToString(o.shape))>>
      ELSE IF ~o.finite THEN <<FailT(e.op \o " not finite", "")>>
      ELSE IfSeq(~Near(o.out, R(0), R(0)), FailT(e.op \o " entries outside its place", o.out))
        \o IfSeq(symmetric /\ ~Near(o.asym, R(0), RMul(Pow10(-13), R(o.big))), FailT(e.op \o " not symmetric", o.asym))
        \o Keep([p \in 1..(n * n) |-> Bad(1 + (p - 1) \div n, 1 + ((p - 1) % n))])

\* Fields of the vectors of an event, exact and absolute: computed once per event.
Fields(D, e, ab) == [i \in 1..Len(e.vecs) |-> Field(D, e.vecs[i], 0, ab)]
HasState(c) == c.k # "none"
ZeroState == [k |-> "zero", p |-> <<>>, s |-> "0"]
StateField(D, c, col0, ab) == Field(D, IF HasState(c) THEN c ELSE ZeroState, col0, ab)
AnyN(N) == \E k \in 1..3 : R(N[k]) # R(0)

\* Symmetric matrix of pairwise forms, each pair evaluated once.
Pairs(n, f(_, _)) == [i \in 1..n |-> [j \in 1..i |-> f(i, j)]]
Sym(t, i, j) == IF j <= i THEN t[i][j] ELSE t[j][i]

KCValue(D, e, F, F0, Fc, nl, i, j, ab) ==
  RAdd(KCForm(D, F[i], F[j], F0, nl, e.var, ab),
       IF HasState(e.cc) THEN KGForm(D, F[i], F[j], MembraneForces(D, Fc, nl, e.var, D.Nc, ab), ab)
       ELSE IF AnyN(D.Nc) THEN KGForm(D, F[i], F[j], UniformForces(D.Nc, ab), ab) ELSE R(0))
KCClauses(D, e) ==
  LET F == Fields(D, e, FALSE)                    G == Fields(D, e, TRUE)
      F0 == StateField(D, e.c, e.col0, FALSE)     G0 == StateField(D, e.c, e.col0, TRUE)
      Fc == StateField(D, e.cc, e.col0, FALSE)    Gc == StateField(D, e.cc, e.col0, TRUE)
      n == Len(e.vecs)
      V == Pairs(n, LAMBDA i, j : KCValue(D, e, F, F0, Fc, e.NL, i, j, FALSE))
      T == Pairs(n, LAMBDA i, j : KCValue(D, e, G, G0, Gc, e.NL, i, j, TRUE))
  IN  MatrixClauses(e, SizeOf(D, e), LAMBDA i, j : Sym(V, i, j), LAMBDA i, j : Sym(T, i, j), TRUE)
KGClauses(D, e) ==
  LET F == Fields(D, e, FALSE)                    G == Fields(D, e, TRUE)
      F0 == StateField(D, e.c, e.col0, FALSE)     G0 == StateField(D, e.c, e.col0, TRUE)
      n == Len(e.vecs)
      N(X0, ab) == IF HasState(e.c) THEN MembraneForces(D, X0, e.NL, e.var, D.N, ab) ELSE UniformForces(D.N, ab)
      N0 == N(F0, FALSE)   N1 == N(G0, TRUE)
      V == Pairs(n, LAMBDA i, j : KGForm(D, F[i], F[j], N0, FALSE))
      T == Pairs(n, LAMBDA i, j : KGForm(D, G[i], G[j], N1, TRUE))
  IN  MatrixClauses(e, SizeOf(D, e), LAMBDA i, j : Sym(V, i, j), LAMBDA i, j : Sym(T, i, j), TRUE)
KTValue(D, e, F, F0, i, j, ab) ==
  RAdd(RAdd(KCForm(D, F[i], F[j], F0, TRUE, e.var, ab),
            KGForm(D, F[i], F[j], MembraneForces(D, F0, TRUE, e.var, D.N, ab), ab)),
       IF AnyN(D.Nc) THEN KGForm(D, F[i], F[j], UniformForces(D.Nc, ab), ab) ELSE R(0))
KTClauses(D, e) ==
  LET F == Fields(D, e, FALSE)                    G == Fields(D, e, TRUE)
      F0 == StateField(D, e.c, e.col0, FALSE)     G0 == StateField(D, e.c, e.col0, TRUE)
      n == Len(e.vecs)
      V == Pairs(n, LAMBDA i, j : KTValue(D, e, F, F0, i, j, FALSE))
      T == Pairs(n, LAMBDA i, j : KTValue(D, e, G, G0, i, j, TRUE))
  IN  MatrixClauses(e, SizeOf(D, e), LAMBDA i, j : Sym(V, i, j), LAMBDA i, j : Sym(T, i, j), TRUE)
MassOf(D, e, ab) ==
  IF e.h = <<>> /\ e.rho = <<>> THEN UniformMass(LamOf(D), ab)
  ELSE VaryingMass(IF e.h = <<>> THEN <<<<Thickness(LamOf(D))>>>> ELSE e.h,
                   IF e.rho = <<>> THEN <<<<LamRho(LamOf(D))>>>> ELSE e.rho, D.offset, ab)
KMClauses(D, e) ==
  LET F == Fields(D, e, FALSE)   G == Fields(D, e, TRUE)
      n == Len(e.vecs)
      m0 == MassOf(D, e, FALSE)   m1 == MassOf(D, e, TRUE)
      V == Pairs(n, LAMBDA i, j : KMForm(D, F[i], F[j], m0, FALSE))
      T == Pairs(n, LAMBDA i, j : KMForm(D, G[i], G[j], m1, TRUE))
  IN  MatrixClauses(e, SizeOf(D, e), LAMBDA i, j : Sym(V, i, j), LAMBDA i, j : Sym(T, i, j), TRUE)

\* Aerodynamics.  The parameters are given, or follow from density, speed and Mach number.  MachRoot is sqrt(M^2 - 1),
\* rational for Pythagorean Mach numbers and to forty digits for the others; Mach 1 itself is taken as 1.0001.
MachRoot(M) == CASE M = "1" -> "0.01414248917270223686134517704372360379954" [] M = "3/2" -> "1.118033988749894848204586834365638117720"
                 [] M = "2" -> "1.732050807568877293527446341505872366943" [] M = "6/5" -> "0.6633249580710799698229865473341373367854"
                 [] M = "5/4" -> "3/4" [] M = "5/3" -> "4/3" [] M = "13/5" -> "12/5" [] M = "13/12" -> "5/12" [] M = "17/8" -> "15/8"
AeroBeta(D) == IF D.beta # "" THEN R(D.beta)
               ELSE RDiv(RMul(R(D.rho_air), RMul(R(D.V), R(D.V))), R(MachRoot(D.Mach)))
AeroGamma(D) ==
  IF D.beta # "" THEN (IF D.gamma # "" THEN R(D.gamma) ELSE R(0))
  ELSE IF Curved(D) THEN RDiv(AeroBeta(D), RMul(2, RMul(R(D.r), R(MachRoot(D.Mach))))) ELSE R(0)
Lower(f) == IF f \in {"x", "X"} THEN "x" ELSE "y"
KAClauses(D, e) ==
  LET F == Fields(D, e, FALSE)   G == Fields(D, e, TRUE)
      bt == AeroBeta(D)   gm == AeroGamma(D)
      val(i, j) == KAForm(D, F[i], F[j], Lower(D.flow), bt, gm, FALSE)
      scl(i, j) == KAForm(D, G[i], G[j], Lower(D.flow), Less(bt), Less(gm), TRUE)
  IN  MatrixClauses(e, SizeOf(D, e), val, scl, FALSE)
\* The damping has no numerical integration: it is of the whole domain.
CAClauses(D0, e) ==
  LET D == [D0 EXCEPT !.sub = <<"", "", "", "">>]
      F == Fields(D, e, FALSE)   G == Fields(D, e, TRUE)
      k == RNeg(R(e.aeromu))
      val(i, j) == RMul(k, WWForm(D, F[i], F[j], FALSE))
      scl(i, j) == RMul(Less(k), WWForm(D, G[i], G[j], TRUE))
  IN  MatrixClauses(e, SizeOf(D, e), val, scl, TRUE)
      \o IfSeq(~Near(e.obs.real, R(0), R(0)), FailT("cA has a real part", e.obs.real))

-----------------------------------------------------------------------------
(* Vectors: [shape, finite, out, forms]. *)
VectorClauses(e, size, want(_), scale(_)) ==
  LET o == e.obs
      Bad(i) == LET x == want(i) IN
        IF Ok(o.forms[i], x, scale(i)) THEN <<>> ELSE Fail(e.op \o " product " \o ToString(i), o.forms[i], x)
  IN  IF o.shape # <<size>> THEN <<FailT(e.op \o " shape", ToString(o.shape))>>
      ELSE IF ~o.finite THEN <<FailT(e.op \o " not finite", "")>>
      ELSE IfSeq(~Near(o.out, R(0), R(0)), FailT(e.op \o " entries outside its place", o.out))
        \o Keep([i \in 1..Len(e.vecs) |-> Bad(i)])
FintClauses(D, e) ==
  LET F == Fields(D, e, FALSE)   G == Fields(D, e, TRUE)
      F0 == StateField(D, e.c, e.col0, FALSE)   G0 == StateField(D, e.c, e.col0, TRUE)
      W == [i \in 1..Len(e.vecs) |-> FintForm(D, F[i], F0, e.var, FALSE)]
      T == [i \in 1..Len(e.vecs) |-> FintForm(D, G[i], G0, e.var, TRUE)]
      bad == VectorClauses(e, SizeOf(D, e), LAMBDA i : W[i], LAMBDA i : T[i])
      W2 == [i \in 1..Len(e.vecs) |-> FintFormTwice(D, F[i], F0, e.var, FALSE)]
      T2 == [i \in 1..Len(e.vecs) |-> FintFormTwice(D, G[i], G0, e.var, TRUE)]
  IN  IF bad = <<>> THEN <<>>
      ELSE IF VectorClauses(e, SizeOf(D, e), LAMBDA i : W2[i], LAMBDA i : T2[i]) = <<>>
      THEN IF ~e.strict THEN <<>> ELSE <<FailT("internal force of the strain energy with twice the shear product w,x w,y", "")>>
      ELSE bad
FextClauses(D, e) ==
  LET F == Fields(D, e, FALSE)   G == Fields(D, e, TRUE)
      inc == IF e.inc = "" THEN "1" ELSE e.inc
  IN  VectorClauses(e, SizeOf(D, e), LAMBDA i : FextForm(D, D.loads, F[i], inc, FALSE), LAMBDA i : FextForm(D, D.loads, G[i], inc, TRUE))

\* Penalty of a point constraint.
KPCClauses(D, e) ==
  LET val(ab) == [i \in 1..Len(e.vecs) |-> PointUVW(D, Field(D, e.vecs[i], 0, ab), e.x, e.y, ab)]
      P == val(FALSE)   Q == val(TRUE)
      form(X, i, j) == RSumSeq([q \in 1..5 |-> IF e.on[q] THEN RMul(R(IF q <= 3 THEN e.kuvw ELSE e.kphi), RMul(X[i][q], X[j][q])) ELSE R(0)])
  IN  MatrixClauses(e, Num(D), LAMBDA i, j : form(P, i, j), LAMBDA i, j : form(Q, i, j), TRUE)

-----------------------------------------------------------------------------
(* Fields at points.  e.pts = sequence of points, or <<>> for the default grid of gridx x gridy points, which
   varies fastest along x. *)
GridGaps(g) == IF g > 1 THEN g - 1 ELSE 1      \* one point: where the sides begin
PointsOf(D, e) ==
  IF e.pts # <<>> THEN e.pts
  ELSE [k \in 1..(e.gridx * e.gridy) |->
          << RDiv(RMul(A_(D), (k - 1) % e.gridx), GridGaps(e.gridx)), RDiv(RMul(B_(D), (k - 1) \div e.gridx), GridGaps(e.gridy)) >>]
ShapeOf(e) == IF e.pts # <<>> THEN e.shape ELSE <<e.gridy, e.gridx>>
\* o: the observed [shape, xs, ys, vals] with vals[q] the values of name q at the points; val(x, y), scl(x, y) the tuples.
FieldClauses(what, o, D, pts, shape, names, val(_, _), scl(_, _)) ==
  LET n == Len(pts)
      ok == /\ o.shape = shape /\ Len(o.xs) = n /\ Len(o.ys) = n /\ Len(o.vals) = Len(names)
            /\ \A q \in 1..Len(names) : Len(o.vals[q]) = n
      At(k) ==
        LET x == R(pts[k][1])   y == R(pts[k][2])
            w == val(x, y)      s == scl(x, y)
        IN  IfSeq(~(Near(o.xs[k], x, RMul(Pow10(-14), A_(D))) /\ Near(o.ys[k], y, RMul(Pow10(-14), B_(D)))),
                  FailT(what \o " is not at the requested point " \o ToString(k), o.xs[k] \o "," \o o.ys[k]))
            \o Keep([q \in 1..Len(names) |-> IF Ok(o.vals[q][k], w[q], s[q]) THEN <<>>
                       ELSE Fail(what \o " " \o names[q] \o " at point " \o ToString(k), o.vals[q][k], w[q])])
  IN  IF ~ok THEN <<FailT(what \o " shape", ToString(o.shape))>> ELSE Flat([k \in 1..n |-> At(k)])
UVWField(what, o, D, c, col0, pts, shape) ==
  LET F == Field(D, c, col0, FALSE)   G == Field(D, c, col0, TRUE) IN
  FieldClauses(what, o, D, pts, shape, NamesUVW, LAMBDA x, y : PointUVW(D, F, x, y, FALSE), LAMBDA x, y : PointUVW(D, G, x, y, TRUE))
StrainField(what, o, D, c, col0, nl, pts, shape) ==
  LET E == Strain(D, Field(D, c, col0, FALSE), nl, FALSE)   H == Strain(D, Field(D, c, col0, TRUE), nl, TRUE) IN
  FieldClauses(what, o, D, pts, shape, NamesE, LAMBDA x, y : PointStrain(D, E, x, y, FALSE), LAMBDA x, y : PointStrain(D, H, x, y, TRUE))
StressField(what, o, D, c, col0, nl, var, pts, shape) ==
  LET E == Resultants(Stiff(D, var, FALSE), Strain(D, Field(D, c, col0, FALSE), nl, FALSE))
      H == Resultants(Stiff(D, var, TRUE), Strain(D, Field(D, c, col0, TRUE), nl, TRUE)) IN
  FieldClauses(what, o, D, pts, shape, NamesN, LAMBDA x, y : PointStrain(D, E, x, y, FALSE), LAMBDA x, y : PointStrain(D, H, x, y, TRUE))

-----------------------------------------------------------------------------
(* Assemblies.  An assembly is [panels, conn]: names of shells, and the name of its connection list ("" if none). *)
ConnsOf(st, a, e) == LET c == IF e.conn # "" THEN e.conn ELSE a.conn IN IF c = "" THEN <<>> ELSE st.conns[c]
GlobalFields(st, a, e, ab) == [i \in 1..Len(e.vecs) |-> GlobalField(st.shells, a.panels, e.vecs[i], ab)]
\* Sum over the domains of f(definition, field i, field j, state, ab) plus the connections (if cs is not empty).
AssembledClauses(st, a, e, cs, f(_, _, _, _, _)) ==
  LET names == a.panels
      n == Len(e.vecs)
      GF(ab) == GlobalFields(st, a, e, ab)
      G0 == GF(FALSE)   G1 == GF(TRUE)
      gaps(G, ab) == [i \in 1..n |-> Gaps(st.shells, names, cs, G[i], ab)]
      g0 == gaps(G0, FALSE)   g1 == gaps(G1, TRUE)
      s0 == GlobalField(st.shells, names, IF HasState(e.c) THEN e.c ELSE ZeroState, FALSE)
      s1 == GlobalField(st.shells, names, IF HasState(e.c) THEN e.c ELSE ZeroState, TRUE)
      val(G, g, s, ab, i, j) == RAdd(DomainSum(names, LAMBDA p : f(st.shells[names[p]], G[i][p], G[j][p], s[p], ab)),
                                     ConnSum(st.shells, cs, g[i], g[j], ab))
      V == Pairs(n, LAMBDA i, j : val(G0, g0, s0, FALSE, i, j))
      T == Pairs(n, LAMBDA i, j : val(G1, g1, s1, TRUE, i, j))
  IN  MatrixClauses(e, Total(st.shells, names), LAMBDA i, j : Sym(V, i, j), LAMBDA i, j : Sym(T, i, j), TRUE)
NoForm(D, F1, F2, F0, ab) == R(0)
\* what each domain contributes
DomKC(D, F1, F2, F0, nl, ab) ==
  RAdd(KCForm(D, F1, F2, F0, nl, <<>>, ab), IF AnyN(D.Nc) THEN KGForm(D, F1, F2, UniformForces(D.Nc, ab), ab) ELSE R(0))
DomKG(D, F1, F2, F0, nl, ab) == KGForm(D, F1, F2, MembraneForces(D, F0, nl, <<>>, D.N, ab), ab)
DomKM(D, F1, F2, F0, ab) == KMForm(D, F1, F2, UniformMass(LamOf(D), ab), ab)
DomKT(D, F1, F2, F0, ab) ==
  RAdd(RAdd(KCForm(D, F1, F2, F0, TRUE, <<>>, ab), KGForm(D, F1, F2, MembraneForces(D, F0, TRUE, <<>>, D.N, ab), ab)),
       IF AnyN(D.Nc) THEN KGForm(D, F1, F2, UniformForces(D.Nc, ab), ab) ELSE R(0))
AsmFint(st, a, e, twice) ==
  LET names == a.panels
      cs == ConnsOf(st, a, e)
      val(ab) ==
        LET G == GlobalFields(st, a, e, ab)
            s == GlobalField(st.shells, names, e.c, ab)
            gs == Gaps(st.shells, names, cs, s, ab)
            d(p, i) == LET D == st.shells[names[p]] IN
                       IF twice THEN FintFormTwice(D, G[i][p], s[p], <<>>, ab) ELSE FintForm(D, G[i][p], s[p], <<>>, ab)
        IN  [i \in 1..Len(e.vecs) |-> RAdd(DomainSum(names, LAMBDA p : d(p, i)),
                                          ConnSum(st.shells, cs, Gaps(st.shells, names, cs, G[i], ab), gs, ab))]
      V == val(FALSE)   T == val(TRUE)
  IN  VectorClauses(e, Total(st.shells, names), LAMBDA i : V[i], LAMBDA i : T[i])
AsmFext(st, a, e) ==
  LET names == a.panels
      val(ab) == LET G == GlobalFields(st, a, e, ab) IN
        [i \in 1..Len(e.vecs) |-> DomainSum(names, LAMBDA p : LET D == st.shells[names[p]] IN
             FextForm(D, D.loads, G[i][p], IF e.inc = "" THEN "1" ELSE e.inc, ab))]
      V == val(FALSE)   T == val(TRUE)
  IN  VectorClauses(e, Total(st.shells, names), LAMBDA i : V[i], LAMBDA i : T[i])

\* Fields of the domains of a group, in order: e.what, e.xg and e.yg = sampling points along x and y (<<>> = default).
LinSeq(len, n) == [k \in 1..n |-> RDiv(RMul(R(len), k - 1), GridGaps(n))]
AsmPoints(D, e) ==
  LET gauss == e.gauss
      xs == IF gauss /\ e.xg # <<>> THEN [k \in 1..Len(e.xg) |-> R(e.xg[k])] ELSE LinSeq(D.a, IF gauss THEN 50 ELSE e.gridx)
      ys == IF gauss /\ e.yg # <<>> THEN [k \in 1..Len(e.yg) |-> R(e.yg[k])] ELSE LinSeq(D.b, IF gauss THEN 50 ELSE e.gridy)
      nx == Len(xs)
  IN  [shape |-> <<Len(ys), nx>>, pts |-> [k \in 1..(nx * Len(ys)) |-> <<xs[1 + ((k - 1) % nx)], ys[1 + (k - 1) \div nx]>>]]
GroupOf(st, a, g) == SelectSeq(a.panels, LAMBDA s : st.shells[s].group = g)
AsmFieldClauses(st, a, e) ==
  LET ds == GroupOf(st, a, e.group)
      One_(i) ==
        LET D == st.shells[ds[i]]
            col == Start(st.shells, a.panels, ds[i])
            pp == AsmPoints(D, e)
            o == e.obs.doms[i]
            what == e.what \o " of domain " \o ToString(i)
        IN  CASE e.what = "uvw" -> UVWField(what, o, D, e.c, col, pp.pts, pp.shape)
              [] e.what = "strain" -> StrainField(what, o, D, e.c, col, e.NL, pp.pts, pp.shape)
              [] e.what = "stress" -> StressField(what, o, D, e.c, col, e.NL, <<>>, pp.pts, pp.shape)
  IN  IF Len(e.obs.doms) # Len(ds) THEN <<FailT("number of domains of the group", ToString(Len(e.obs.doms)))>>
      ELSE Flat([i \in 1..Len(ds) |-> One_(i)])
\* Extremes of one component over the grids of a group; strains with their nonlinear terms.
Component(D, F, vec, nl, ab) ==      \* the polynomial of one component, by its name
  LET At(names) == CHOOSE i \in 1..Len(names) : names[i] = vec
      InNames(names) == \E i \in 1..Len(names) : names[i] = vec
      neg == IF ab THEN R(1) ELSE R(-1)
  IN  IF InNames(NamesUVW) THEN <<F.u, F.v, F.w, MScale(neg, F.wx), MScale(neg, F.wy)>>[At(NamesUVW)]
      ELSE IF InNames(NamesE) THEN Strain(D, F, nl, ab)[At(NamesE)]
      ELSE Resultants(Stiff(D, <<>>, ab), Strain(D, F, nl, ab))[At(NamesN)]
RECURSIVE Extreme(_, _, _)
Extreme(s, k, up) == IF k = 1 THEN s[1] ELSE LET r == Extreme(s, k - 1, up) IN IF up THEN RMax(s[k], r) ELSE RMin(s[k], r)
AsmPlotClauses(st, a, e) ==
  LET ds == GroupOf(st, a, e.group)
      val(i, ab) == LET D == st.shells[ds[i]]
                        P == Component(D, Field(D, e.c, Start(st.shells, a.panels, ds[i]), ab), e.vec, TRUE, ab)
                        pp == AsmPoints(D, e).pts
                    IN  [k \in 1..Len(pp) |-> AtXY(D, P, pp[k][1], pp[k][2], ab)]
      V == Flat([i \in 1..Len(ds) |-> val(i, FALSE)])
      T == Flat([i \in 1..Len(ds) |-> val(i, TRUE)])
      big == Extreme(T, Len(T), TRUE)
      least == Extreme(V, Len(V), FALSE)
      most == Extreme(V, Len(V), TRUE)
  IN  IfSeq(~Ok(e.obs.min, least, big), Fail("least value plotted", e.obs.min, least))
      \o IfSeq(~Ok(e.obs.max, most, big), Fail("largest value plotted", e.obs.max, most))
\* Each domain owns one range of degrees of freedom, in the order given.
AsmSizeClauses(st, a, e) ==
  LET want == [i \in 1..Len(a.panels) |-> <<Before(st.shells, a.panels, i), Before(st.shells, a.panels, i + 1)>>] IN
  IfSeq(e.obs.size # Total(st.shells, a.panels), FailT("size", ToString(e.obs.size)))
  \o IfSeq(e.obs.rows # want, FailT("rows of the domains", ToString(e.obs.rows)))
  \o IfSeq(e.obs.cols # want, FailT("columns of the domains", ToString(e.obs.cols)))
AsmOps == {"aKC", "aConn", "aKG", "aKM", "aKT", "aFint", "aFext", "aSize", "aField", "aPlot"}
AsmClauses(st, e) ==
  LET a == st.asms[e.A] IN
  CASE e.op = "aKC" -> AssembledClauses(st, a, e, ConnsOf(st, a, e), LAMBDA D, F1, F2, F0, ab : DomKC(D, F1, F2, F0, e.NL, ab))
    [] e.op = "aConn" -> AssembledClauses(st, a, e, ConnsOf(st, a, e), NoForm)
    [] e.op = "aKG" -> AssembledClauses(st, a, e, <<>>, LAMBDA D, F1, F2, F0, ab : DomKG(D, F1, F2, F0, e.NL, ab))
    [] e.op = "aKM" -> AssembledClauses(st, a, e, <<>>, DomKM)
    [] e.op = "aKT" -> AssembledClauses(st, a, e, ConnsOf(st, a, e), DomKT)
    [] e.op = "aFint" -> IF AsmFint(st, a, e, TRUE) = <<>> THEN <<>> ELSE AsmFint(st, a, e, FALSE)
    [] e.op = "aFext" -> AsmFext(st, a, e)
    [] e.op = "aSize" -> AsmSizeClauses(st, a, e)
    [] e.op = "aField" -> AsmFieldClauses(st, a, e)
    [] e.op = "aPlot" -> AsmPlotClauses(st, a, e)

\* Penalty stiffness of prescribed displacements, placed by the caller; and the penalty constants proposed for them.
KPdClauses(D, e) ==
  LET G == [i \in 1..Len(e.vecs) |-> PdGap(D, e.kind, Field(D, e.vecs[i], 0, FALSE), e.x, e.y, FALSE)]
      H == [i \in 1..Len(e.vecs) |-> PdGap(D, e.kind, Field(D, e.vecs[i], 0, TRUE), e.x, e.y, TRUE)]
  IN  MatrixClauses(e, SizeOf(D, e), LAMBDA i, j : PdForm(D, e.kind, e.ks, G[i], G[j], FALSE), LAMBDA i, j : PdForm(D, e.kind, e.ks, H[i], H[j], TRUE), TRUE)
PdConstants(D, kind) ==
  LET A == LamA(LamOf(D))
      len == CASE kind = "point" -> R(1) [] kind = "linex" -> B_(D) [] kind = "liney" -> A_(D)
  IN  <<RDiv(MGet(A, 1, 1), len), RDiv(MGet(A, 2, 2), len), RDiv(MGet(A, 1, 1), len)>>
NumClauses(what, seen, want) ==
  IF Len(seen) # Len(want) THEN <<FailT(what \o ": number of values", ToString(seen))>>
  ELSE Keep([i \in 1..Len(want) |-> IF Ok(seen[i], want[i], RAbs(want[i])) THEN <<>> ELSE Fail(what \o " " \o ToString(i), seen[i], want[i])])
PenaltyClauses(st, e) ==
  LET D1 == st.shells[e.s]   D2 == st.shells[e.s2]
      k == KtKr(LamOf(D1), LamOf(D2), e.kind)
  IN  NumClauses("penalty constant", e.obs.k, IF e.kind = "bot-top" THEN <<RDiv(k[1], RMin(A_(D1), B_(D1)))>> ELSE k)

-----------------------------------------------------------------------------
Sh(st, e) == st.shells[e.s]
ShellClauses(st, e) ==
  LET D == Sh(st, e) IN
  CASE e.op = "kC" -> KCClauses(D, e)
    [] e.op = "kG" -> KGClauses(D, e)
    [] e.op = "kT" -> KTClauses(D, e)
    [] e.op = "kM" -> KMClauses(D, e)
    [] e.op = "kA" -> KAClauses(D, e)
    [] e.op = "cA" -> CAClauses(D, e)
    [] e.op = "fint" -> FintClauses(D, e)
    [] e.op = "fext" -> FextClauses(D, e)
    [] e.op = "kPC" -> KPCClauses(D, e)
    [] e.op = "uvw" -> UVWField("uvw", e.obs, D, e.c, 0, PointsOf(D, e), ShapeOf(e))
    [] e.op = "strain" -> StrainField("strain", e.obs, D, e.c, 0, e.NL, PointsOf(D, e), ShapeOf(e))
    [] e.op = "stress" -> StressField("stress", e.obs, D, e.c, 0, e.NL, e.var, PointsOf(D, e), ShapeOf(e))
    [] e.op = "kPd" -> KPdClauses(D, e)
    [] e.op = "pdk" -> NumClauses("penalty constant", e.obs.k, PdConstants(D, e.kind))
    [] e.op = "penalty" -> PenaltyClauses(st, e)
    [] e.op = "size" -> IfSeq(e.obs.size # Num(D), FailT("size", ToString(e.obs.size)))
    [] e.op = "reload" -> IfSeq(~e.obs.same, FailT("definition after saving and loading", ""))

-----------------------------------------------------------------------------
(* Stiffened bays. *)
BayFields(Y, e, ab) == [i \in 1..Len(e.vecs) |-> BayField(Y, e.vecs[i], ab)]
BayForm(Y, e, f(_, _, _)) ==      \* f(field i, field j, ab)
  LET X == BayFields(Y, e, FALSE)   Z == BayFields(Y, e, TRUE)
      n == Len(e.vecs)
      V == Pairs(n, LAMBDA i, j : f(X[i], X[j], FALSE))
      T == Pairs(n, LAMBDA i, j : f(Z[i], Z[j], TRUE))
  IN  MatrixClauses(e, BayTotal(Y), LAMBDA i, j : Sym(V, i, j), LAMBDA i, j : Sym(T, i, j), TRUE)
HasBeam(Y) == \E i \in 1..Len(Y.stiffs) : Y.stiffs[i].kind = "1d" /\ Has(Y.stiffs[i].flange)
BayKCClauses(Y, e) ==
  LET bad == BayForm(Y, e, LAMBDA F, G, ab : BayKC(Y, F, G, FALSE, ab)) IN
  IF bad = <<>> \/ ~HasBeam(Y) THEN bad
  ELSE LET other == BayForm(Y, e, LAMBDA F, G, ab : BayKC(Y, F, G, TRUE, ab)) IN
       IF other # <<>> THEN bad
       ELSE IF e.strict THEN <<FailT("torsion energy of the flange of a 1D blade has no shear modulus", "")>> ELSE <<>>
BayKGClauses(Y, e) ==
  LET X0 == BayField(Y, IF HasState(e.c) THEN e.c ELSE ZeroState, FALSE)
      Z0 == BayField(Y, IF HasState(e.c) THEN e.c ELSE ZeroState, TRUE)
  IN  BayForm(Y, e, LAMBDA F, G, ab : BayKG(Y, F, G, IF ab THEN Z0 ELSE X0, ab))
\* One stiffener by itself, in the place it has in the bay.
StiffClauses(Y, e) ==
  LET form(coded) == BayForm(Y, e, LAMBDA F, G, ab :
        CASE e.call = "kC" -> StiffKC(Y, e.i, F, G, coded, ab)
          [] e.call = "kG" -> LET Z == BayField(Y, IF HasState(e.c) THEN e.c ELSE ZeroState, ab) IN StiffKG(Y, e.i, F, G, Z, e.NL, ab)
          [] e.call = "kM" -> StiffKM(Y, e.i, F, G, ab))
      bad == form(FALSE)
  IN  IF bad = <<>> \/ e.call # "kC" \/ Y.stiffs[e.i].kind # "1d" THEN bad ELSE form(TRUE)
\* Rows and columns of the skin field only, over the strips of the panels.
BayKAClauses(Y, e) ==
  LET X == BayFields(Y, e, FALSE)   Z == BayFields(Y, e, TRUE)
      bt == AeroBeta(Y)   gm == AeroGamma(Y)
      sum(P, i, j, b, g, ab) == Sum_(Len(Y.skins), LAMBDA q : KAForm(SkinDef(Y, Y.skins[q]), P[i].skin, P[j].skin, Lower(Y.flow), b, g, ab))
  IN  MatrixClauses(e, BayTotal(Y), LAMBDA i, j : sum(X, i, j, bt, gm, FALSE), LAMBDA i, j : sum(Z, i, j, Less(bt), Less(gm), TRUE), FALSE)
\* Damping: given with beta, or from the speed of sound.
BayMu(Y) ==
  IF Y.beta # "" THEN (IF Y.mu # "" THEN R(Y.mu) ELSE R(0))
  ELSE LET M == IF Y.Mach = "1" THEN R("1.0001") ELSE R(Y.Mach)
           q == RMul(M, M)
       IN  RMul(RDiv(AeroBeta(Y), RMul(M, R(Y.sound))), RDiv(RSub(q, 2), RSub(q, 1)))
BayCAClauses(Y, e) ==
  LET X == BayFields(Y, e, FALSE)   Z == BayFields(Y, e, TRUE)
      k == RNeg(BayMu(Y))
      D == SkinOnly(Y)
  IN  MatrixClauses(e, BayTotal(Y), LAMBDA i, j : RMul(k, WWForm(D, X[i].skin, X[j].skin, FALSE)),
                    LAMBDA i, j : RMul(Less(k), WWForm(D, Z[i].skin, Z[j].skin, TRUE)), TRUE)
      \o IfSeq(~Near(e.obs.real, R(0), R(0)), FailT("cA has a real part", e.obs.real))
BayFextClauses(Y, e) ==
  LET work(D, F, fs, ab) == RSumSeq([q \in 1..Len(fs) |->
        LET P == PointUVW(D, F, fs[q].x, fs[q].y, ab) IN RSumSeq([i \in 1..3 |-> RMul(S(ab, R(fs[q].f[i])), P[i])])])
      total(X, ab) == RAdd(work(SkinOnly(Y), X.skin, Y.forces, ab),
        Sum_(Len(Y.stiffs), LAMBDA i : IF Plate(Y.stiffs[i]) THEN work(FlangeDef(Y, Y.stiffs[i]), X.fl[i], Y.stiffs[i].forces, ab) ELSE R(0)))
      X == BayFields(Y, e, FALSE)   Z == BayFields(Y, e, TRUE)
  IN  VectorClauses(e, BayTotal(Y), LAMBDA i : total(X[i], FALSE), LAMBDA i : total(Z[i], TRUE))
BayFieldClauses(Y, e) ==
  LET D == IF e.si = 0 THEN SkinOnly(Y) ELSE FlangeDef(Y, Y.stiffs[e.si])
      col == IF e.si = 0 THEN 0 ELSE BeforeFl(Y, e.si)
  IN  UVWField("displacement", e.obs, D, e.c, col, PointsOf(D, e), ShapeOf(e))
BayOps == {"sMat", "bKC", "bKG", "bKM", "bKA", "bCA", "bFext", "bSize", "bField", "breload"}
BayClauses(st, e) ==
  LET Y == st.bays[e.Y] IN
  CASE e.op = "bKC" -> BayKCClauses(Y, e)
    [] e.op = "bKG" -> BayKGClauses(Y, e)
    [] e.op = "bKM" -> BayForm(Y, e, LAMBDA F, G, ab : BayKM(Y, F, G, ab))
    [] e.op = "bKA" -> BayKAClauses(Y, e)
    [] e.op = "bCA" -> BayCAClauses(Y, e)
    [] e.op = "sMat" -> StiffClauses(Y, e)
    [] e.op = "bFext" -> BayFextClauses(Y, e)
    [] e.op = "bSize" -> IfSeq(e.obs.size # BayTotal(Y), FailT("size", ToString(e.obs.size)))
    [] e.op = "bField" -> BayFieldClauses(Y, e)
    [] e.op = "breload" -> IfSeq(~e.obs.same, FailT("definition after saving and loading", ""))

-----------------------------------------------------------------------------
(* Contour plots.  What is drawn: one contour per part (the shell; each domain of the group; the skin or the flange of  *)
(* a bay), with y to the right and x upwards from where the part starts, the values of the component asked for, and     *)
(* levels spaced evenly from the least to the largest value of all parts, or between the ends given.  With "deform" the *)
(* points are displaced by that many times v and (in one direction or the other) u.                                     *)
DrawParts(st, e) ==
  CASE e.what = "shell" -> LET D == st.shells[e.s] IN
         << [D |-> D, col |-> 0, pts |-> PointsOf(D, e), shape |-> ShapeOf(e), x0 |-> R(e.off[1]), y0 |-> R(e.off[2])] >>
    [] e.what = "asm" ->
         LET a == st.asms[e.A]
             ds == GroupOf(st, a, e.group)
             At(t) == IF t = "" THEN R(0) ELSE R(t)
             part(D, s) == LET pp == AsmPoints(D, e) IN
               [D |-> D, col |-> Start(st.shells, a.panels, s), pts |-> pp.pts, shape |-> pp.shape, x0 |-> At(D.at[1]), y0 |-> At(D.at[2])]
         IN  [i \in 1..Len(ds) |-> part(st.shells[ds[i]], ds[i])]
    [] e.what = "bay" -> LET Y == st.bays[e.Y]
                             D == IF e.si = 0 THEN SkinOnly(Y) ELSE FlangeDef(Y, Y.stiffs[e.si])
                         IN  << [D |-> D, col |-> IF e.si = 0 THEN 0 ELSE BeforeFl(Y, e.si), pts |-> PointsOf(D, e), shape |-> ShapeOf(e), x0 |-> R(0), y0 |-> R(0)] >>
DrawClauses(st, e) ==
  LET parts == DrawParts(st, e)
      n == Len(parts)
      fld(p, ab) == Field(p.D, e.c, p.col, ab)
      val(p, ab) == LET P == Component(p.D, fld(p, ab), e.vec, e.NL, ab) IN
                    [k \in 1..Len(p.pts) |-> AtXY(p.D, P, R(p.pts[k][1]), R(p.pts[k][2]), ab)]
      V == [i \in 1..n |-> val(parts[i], FALSE)]
      T == [i \in 1..n |-> val(parts[i], TRUE)]
      all == Flat(V)
      scales == Flat(T)
      big == Extreme(scales, Len(scales), TRUE)
      least == IF e.vmin # "" THEN R(e.vmin) ELSE Extreme(all, Len(all), FALSE)
      most == IF e.vmax # "" THEN R(e.vmax) ELSE Extreme(all, Len(all), TRUE)
      span == RAdd(big, RAdd(RAbs(least), RAbs(most)))
      level(k) == RAdd(least, RDiv(RMul(RSub(most, least), k - 1), e.levels - 1))
      o == e.obs
      sf == IF e.deform = "" THEN R(0) ELSE R(e.deform)
      part(i, up) ==
        LET p == parts[i]   q == o.parts[i]   m == Len(p.pts)
            what == "contour " \o ToString(i)
            P(name, ab) == LET PP == Component(p.D, fld(p, ab), name, FALSE, ab) IN [k \in 1..m |-> AtXY(p.D, PP, R(p.pts[k][1]), R(p.pts[k][2]), ab)]
            none == [k \in 1..m |-> R(0)]
            u == IF e.deform = "" THEN none ELSE P("u", FALSE)   ua == IF e.deform = "" THEN none ELSE P("u", TRUE)
            v == IF e.deform = "" THEN none ELSE P("v", FALSE)   va == IF e.deform = "" THEN none ELSE P("v", TRUE)
            x(k) == RAdd(RAdd(p.x0, R(p.pts[k][1])), RMul(up, RMul(sf, u[k])))
            y(k) == RAdd(RAdd(p.y0, R(p.pts[k][2])), RMul(sf, v[k]))
            sx(k) == RAdd(RAdd(RAbs(p.x0), A_(p.D)), RMul(RAbs(sf), ua[k]))
            sy(k) == RAdd(RAdd(RAbs(p.y0), B_(p.D)), RMul(RAbs(sf), va[k]))
        IN  IF q.shape # p.shape \/ Len(q.vals) # m \/ Len(q.x) # m \/ Len(q.y) # m THEN <<FailT(what \o " shape", ToString(q.shape))>>
            ELSE Keep([k \in 1..m |-> IF Ok(q.x[k], x(k), sx(k)) THEN <<>> ELSE Fail(what \o ": height of point " \o ToString(k), q.x[k], x(k))])
              \o Keep([k \in 1..m |-> IF Ok(q.y[k], y(k), sy(k)) THEN <<>> ELSE Fail(what \o ": position across of point " \o ToString(k), q.y[k], y(k))])
              \o Keep([k \in 1..m |-> IF Ok(q.vals[k], V[i][k], T[i][k]) THEN <<>> ELSE Fail(what \o ": value at point " \o ToString(k), q.vals[k], V[i][k])])
              \o (IF Len(q.levels) # e.levels THEN <<FailT(what \o ": number of levels", ToString(Len(q.levels)))>>
                  ELSE Keep([k \in 1..e.levels |-> IF Ok(q.levels[k], level(k), span) THEN <<>> ELSE Fail(what \o ": level " \o ToString(k), q.levels[k], level(k))]))
      drawn(up) == Flat([i \in 1..n |-> part(i, up)])
  IN  IF o.flat THEN IfSeq(~RLe(RSub(most, least), Tol(span)), FailT("no contour of a field that varies", RShow(least) \o " to " \o RShow(most)))
      ELSE IF Len(o.parts) # n THEN <<FailT("number of contours", ToString(Len(o.parts)))>>
      ELSE LET bad == drawn(R(-1)) IN
           (IF bad = <<>> THEN <<>> ELSE IF e.deform # "" /\ drawn(R(1)) = <<>> THEN <<>> ELSE bad)
        \o IfSeq(o.kept # TRUE, FailT("fields calculated before were replaced", ""))
        \o IfSeq(o.axes # TRUE, FailT("the axes given are not those drawn on and returned", ""))
        \o IfSeq(o.down # e.down, FailT("direction of the vertical axis", ""))
        \o IfSeq(o.files # (IF e.save /\ ~e.ax THEN 1 ELSE 0), FailT("number of files written", ToString(o.files)))
        \o (IF e.what # "asm" THEN <<>>
            ELSE IfSeq(~Ok(o.min, least, span), Fail("least value", o.min, least)) \o IfSeq(~Ok(o.max, most, span), Fail("largest value", o.max, most)))

-----------------------------------------------------------------------------
(* Ready-made assemblies: the displacements and the modes that come with them satisfy the equations of the structure. *)
EqTol == Pow10(-9)
Balance(e, val(_), scale(_)) ==
  Keep([i \in 1..Len(e.vecs) |-> LET x == val(i) IN
     IF Small(x, scale(i), EqTol) THEN <<>> ELSE FailT(e.op \o ": equation " \o ToString(i) \o " of " \o e.fn, RShow(x) \o " of " \o RShow(scale(i)))])
Proper(s, n) == Len(s) = n /\ (\A k \in 1..n : IsNum(s[k])) /\ \E k \in 1..n : R(s[k]) # R(0)
DispClauses(st, e) ==
  LET names == st.asms[e.A].panels
      cs == st.conns[e.A]
      n == Total(st.shells, names)
      fields(v, ab) == GlobalField(st.shells, names, v, ab)
      left(U, X, ab) ==
        IF e.fn # "cyl_spla" THEN SystemForm(st, names, cs, U, X, ab)
        ELSE RAdd(DomainSum(names, LAMBDA p : LET D == st.shells[names[p]] IN
                    IF e.twice THEN FintFormTwice(D, U[p], X[p], <<>>, ab) ELSE FintForm(D, U[p], X[p], <<>>, ab)),
                  ConnSum(st.shells, cs, Gaps(st.shells, names, cs, U, ab), Gaps(st.shells, names, cs, X, ab), ab))
      right(U, ab) == DomainSum(names, LAMBDA p : LET D == st.shells[names[p]] IN FextForm(D, BuiltLoads(e.fn, e.g, D, p), U[p], "1", ab))
      U0 == [i \in 1..Len(e.vecs) |-> fields(e.vecs[i], FALSE)]   U1 == [i \in 1..Len(e.vecs) |-> fields(e.vecs[i], TRUE)]
      X0 == fields(Coef(e.obs.c), FALSE)   X1 == fields(Coef(e.obs.c), TRUE)
  IN  IF ~Proper(e.obs.c, n) THEN <<FailT("displacements", ToString(Len(e.obs.c)))>>
      ELSE IF e.obs.inc # "1.0" THEN IfSeq(Easy(e.fn, e.g), FailT("not all of the load was reached", e.obs.inc))
      ELSE Balance(e, LAMBDA i : RSub(left(U0[i], X0, FALSE), right(U0[i], FALSE)), LAMBDA i : RAdd(left(U1[i], X1, TRUE), right(U1[i], TRUE)))
ModeClauses(st, e) ==
  LET names == st.asms[e.A].panels
      cs == st.conns[e.A]
      n == Total(st.shells, names)
      o == e.obs
      steady == Steady(e.fn, e.g) /\ o.c # <<>>
      fields(v, ab) == GlobalField(st.shells, names, v, ab)
      lb == e.fn \notin {"ts_freq", "ts_flutter"}
      mass(U, V, ab) == DomainSum(names, LAMBDA p : DomKM(st.shells[names[p]], U[p], V[p], Zero, ab))
      flow(U, V, ab) == DomainSum(names, LAMBDA p : LET D == st.shells[names[p]] IN
        IF D.Mach = "" THEN R(0) ELSE KAForm(D, U[p], V[p], Lower(D.flow), S(ab, AeroBeta(D)), S(ab, AeroGamma(D)), ab))
      stress(U, V, X, ab) == StressForm(st, names, U, V, X, steady, ab)
      AA(U, V, X, ab) == IF e.fn # "ts_flutter" THEN SystemForm(st, names, cs, U, V, ab)
                         ELSE RAdd(RAdd(SystemForm(st, names, cs, U, V, ab), stress(U, V, X, ab)), flow(U, V, ab))
      BB(U, V, X, ab) == IF lb THEN stress(U, V, X, ab) ELSE mass(U, V, ab)
      U0 == [i \in 1..Len(e.vecs) |-> fields(e.vecs[i], FALSE)]   U1 == [i \in 1..Len(e.vecs) |-> fields(e.vecs[i], TRUE)]
      X0 == IF steady THEN fields(Coef(o.c), FALSE) ELSE <<>>   X1 == IF steady THEN fields(Coef(o.c), TRUE) ELSE <<>>
      R0 == fields(Coef(o.re), FALSE)   R1 == fields(Coef(o.re), TRUE)
      real == o.im = <<>>
      I0 == fields(Coef(o.im), FALSE)   I1 == fields(Coef(o.im), TRUE)
      lr == R(o.lam[1])   li == R(o.lam[2])
      \* (A + lambda B) (re + i im), parts
      re(U, X, P, Q, a, b, ab) == RAdd(RAdd(AA(U, P, X, ab), RMul(a, BB(U, P, X, ab))), IF real THEN R(0) ELSE RMul(b, BB(U, Q, X, ab)))
  IN  IF ~o.found THEN <<FailT("no mode", ToString(e.i))>>
      ELSE IF ~Proper(o.re, n) \/ ~(real \/ Len(o.im) = n) \/ ~IsNum(o.lam[1]) \/ ~IsNum(o.lam[2]) \/ (Steady(e.fn, e.g) /\ o.c # <<>> /\ Len(o.c) # n)
           THEN <<FailT("not a mode", ToString(Len(o.re)))>>
      ELSE Balance(e, LAMBDA i : re(U0[i], X0, R0, I0, lr, RNeg(li), FALSE), LAMBDA i : re(U1[i], X1, R1, I1, RAbs(lr), RAbs(li), TRUE))
           \o (IF real THEN <<>>
               ELSE Balance(e, LAMBDA i : re(U0[i], X0, I0, R0, lr, li, FALSE), LAMBDA i : re(U1[i], X1, I1, R1, RAbs(lr), RAbs(li), TRUE)))
BuildOps == {"build", "disp", "mode"}
BuiltClauses(st, e) ==
  CASE e.op = "build" -> BuildClauses(e)
    [] e.op = "disp" -> IF e.fn # "cyl_spla" THEN DispClauses(st, e)
                        ELSE LET t == DispClauses(st, [e EXCEPT !.twice = TRUE]) IN IF t = <<>> THEN t ELSE DispClauses(st, e)
    [] e.op = "mode" -> ModeClauses(st, e)

-----------------------------------------------------------------------------
(* Requests that cannot be honoured.  Rejected(st, e) says whether the request e must be rejected in state st. *)
NoLaminate(D) == D.stack = <<>> \/ (D.prop = <<>> /\ D.props = <<>>) \/ (D.plyt = "" /\ D.plyts = <<>>)
NoPistonTheory(D) ==
  \/ D.beta = "" /\ (D.Mach = "" \/ D.rho_air = "" \/ D.V = "")
  \/ D.beta = "" /\ D.Mach # "" /\ ~RLe(R(1), R(D.Mach))
  \/ D.flow \notin {"x", "X", "y", "Y"}
JointFuncs == {"SSxcte", "SSycte", "SB", "SB_TSL", "BFycte", "BFxcte"}
PlotNames == {NamesUVW[i] : i \in 1..5} \cup {NamesE[i] : i \in 1..6} \cup {NamesN[i] : i \in 1..6}
Rejected(st, e) ==
  CASE e.what = "vector" ->
         \/ e.form \in {"2d", "short", "long"}
         \/ e.form = "list" /\ e.call \in {"kC", "kG", "kT"}
         \/ e.call \in {"kC", "kG", "kT", "kM", "fext", "fint", "stress"} /\ NoLaminate(st.shells[e.s])
         \/ e.call = "kA" /\ NoPistonTheory(st.shells[e.s])
    [] e.what = "model" -> TRUE
    [] e.what = "norule" -> e.args[1] \notin 2..64 \/ e.args[2] < e.args[1] \/ e.args[3] < e.args[1]
    [] e.what = "orders" ->        \* the rules there are
         LET D == st.shells[e.s]
             top(p, q) == IF e.form = "kA" /\ p < q THEN q ELSE p
         IN  \/ ~(top(e.args[1], D.m) \in 2..64 /\ top(e.args[2], D.n) \in 2..64)
             \/ e.form \in {"kC", "kG", "kT", "kM", "fint"} /\ NoLaminate(D)
             \/ e.form = "kA" /\ NoPistonTheory(D)
    [] e.what = "terms" -> \/ e.args[1] > 30      \* the functions there are
                           \/ e.form \in {"kC", "kG", "kT", "kM", "fext", "fint", "stress"} /\ NoLaminate(st.shells[e.s])
                           \/ e.form = "kA" /\ NoPistonTheory(st.shells[e.s])
    [] e.what = "noload" -> TRUE
    [] e.what = "nopd" -> \/ \A i \in 1..3 : e.args[i] = ""
                          \/ \A i \in 4..6 : e.args[i] = ""
                          \/ \E i \in 1..3 : (e.args[i] = "") # (e.args[i + 3] = "")
    [] e.what = "points" -> e.args[1] # e.args[2]
    [] e.what = "stiffness" -> e.args # <<st.shells[e.s].nx, st.shells[e.s].ny, 6, 6>>
    [] e.what = "inertia" -> e.args # <<st.shells[e.s].nx, st.shells[e.s].ny>>
    [] e.what = "avector" -> e.form # "ok"
    [] e.what = "func" -> e.form \notin JointFuncs
    [] e.what = "noconn" -> TRUE
    [] e.what = "gauss" -> e.form = "none"
    [] e.what = "plot" -> e.call \notin PlotNames
    [] e.what = "axes" -> e.call \notin {"none", "axes"}
    [] e.what = "nolam" -> TRUE
    [] e.what = "tsl" -> e.form # ""          \* the faces must be the same, and the law must be one there is
    [] e.what = "notshell" -> TRUE
    [] e.what = "penalty" -> e.form # "" \/ e.call \notin {"xcte", "ycte", "bot-top", "xcte-ycte", "ycte-xcte"}
    [] e.what = "builder" -> e.form # "ok"
    [] e.what \in {"bstiff", "bflange", "bplot"} -> e.form # "ok"
    [] e.what = "bcall" ->
         LET Y == st.bays[e.Y] IN
         \/ e.form # "ok"
         \/ Y.a = "" \/ Y.b = ""
         \/ e.call \in {"bKC", "bKG", "bKM"} /\ \E i \in 1..Len(Y.skins) : NoLaminate(OwnOr(Y, Y.skins[i].lam))
         \/ e.call = "bKA" /\ NoPistonTheory(Y)
         \/ e.call = "bCA" /\ (NoPistonTheory([Y EXCEPT !.flow = "x"]) \/ (Y.beta = "" /\ Y.sound = ""))
    [] e.what = "bregion" ->
         LET s == st.bays[e.Y].stiffs IN
         \/ Len(s) < e.args[1]
         \/ ~Plate(s[e.args[1]])
         \/ e.call \notin {"flange", "Flange"}
    [] e.what = "bpoints" -> e.args[1] # e.args[2]
BadClauses(st, e) ==
  LET want == Rejected(st, e) IN
  IfSeq(want /\ e.obs.rejected = "", FailT("not rejected: " \o e.what \o " " \o e.call \o " " \o e.form, ToString(e.args)))
  \o IfSeq(~want /\ e.obs.rejected # "", FailT("rejected: " \o e.what \o " " \o e.call \o " " \o e.form, e.obs.rejected))

Definitions == {"shell", "set", "load", "conns", "asm", "bay", "bset", "pset", "sset"}
Clauses(st, e) ==
  IF e.obs.exc # "" THEN <<FailT("raised " \o e.obs.exc, e.op \o ": " \o e.obs.msg)>>
  ELSE CASE e.op = "basis" -> BasisClauses(e)
         [] e.op = "integrals" -> IntegralClauses(e)
         [] e.op = "rule" -> RuleClauses(e)
         [] e.op \in Definitions -> <<>>
         [] OTHER -> IfSeq(e.obs.mut # <<>>, FailT("definition or arguments changed by " \o e.op, ToString(e.obs.mut)))
                     \o (CASE e.op = "bad" -> BadClauses(st, e)
                           [] e.op \in AsmOps \cup {"disp", "mode"} /\ e.A \notin DOMAIN st.asms -> <<>>      \* not built: reported there
                           [] e.op \in AsmOps -> AsmClauses(st, e)
                           [] e.op \in BuildOps -> BuiltClauses(st, e)
                           [] e.op = "draw" -> DrawClauses(st, e)
                           [] e.op \in BayOps -> BayClauses(st, e)
                           [] OTHER -> ShellClauses(st, e))

\* Definitions change by defining, and by nothing else.
Step(st, e) ==
  CASE e.op = "shell" -> [st EXCEPT !.shells = (e.s :> e.def) @@ @]
    [] e.op = "set" -> [st EXCEPT !.shells = (e.s :> [@[e.s] EXCEPT ![e.attr] = e.val]) @@ @]
    [] e.op = "load" -> [st EXCEPT !.shells = (e.s :> [@[e.s] EXCEPT !.loads = Append(@, e.ld)]) @@ @]
    [] e.op = "conns" -> [st EXCEPT !.conns = (e.k :> e.list) @@ @]
    [] e.op = "asm" -> [st EXCEPT !.asms = (e.A :> [panels |-> e.panels, conn |-> e.conn]) @@ @]
    [] e.op = "bay" -> [st EXCEPT !.bays = (e.Y :> e.def) @@ @]
    [] e.op = "bset" -> [st EXCEPT !.bays = (e.Y :> [@[e.Y] EXCEPT ![e.attr] = e.val]) @@ @]
    [] e.op = "pset" -> [st EXCEPT !.bays[e.Y].skins[e.i] = IF e.attr \in {"N", "Nc", "rho"} THEN [@ EXCEPT ![e.attr] = e.val]
                                                             ELSE [@ EXCEPT !.lam[e.attr] = e.val]]
    [] e.op = "sset" -> [st EXCEPT !.bays[e.Y].stiffs[e.i] = IF e.attr \in {"N", "Fx", "forces"} THEN [@ EXCEPT ![e.attr] = e.val]
                                                              ELSE [@ EXCEPT !.flange[e.attr] = e.val]]
    [] e.op = "build" ->
         IF e.obs.exc # "" \/ BuildClauses(e) # <<>> THEN st
         ELSE LET names == BuiltNames(e)   defs == BuiltDefs(e) IN
              [st EXCEPT !.shells = [s \in {names[i] : i \in 1..Len(names)} |-> defs[CHOOSE i \in 1..Len(names) : names[i] = s]] @@ @,
                         !.conns = (e.A :> BuiltConns(e.A, e.fn, e.g, defs)) @@ @,
                         !.asms = (e.A :> [panels |-> names, conn |-> ""]) @@ @]
    [] OTHER -> st
=============================================================================
