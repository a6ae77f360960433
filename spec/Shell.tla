------------------------------- MODULE Shell -------------------------------
(***************************************************************************)
(* One shell domain: displacement fields, Donnell strains, and the exact   *)
(* value of every bilinear form, internal force and load.                  *)
(*                                                                         *)
(* A definition D has: a, b, r ("" = flat), m, n, fl = flags of u along x, *)
(* u along y, v x, v y, w x, w y; the laminate (stack, plyt or plyts, prop *)
(* or props, rho or rhos, offset, ortho); sub = <<x1, x2, y1, y2>> ("" =   *)
(* whole extent); N and Nc (membrane forces, and constant ones); loads.    *)
(* Polynomials are in natural coordinates xi = 2x/a - 1, eta = 2y/b - 1.   *)
(*                                                                         *)
(* Every function has a last argument ab: TRUE replaces each coefficient   *)
(* by its absolute value, which bounds the rounding errors of any order    *)
(* of evaluation.                                                          *)
(***************************************************************************)
EXTENDS Laminate, Bardell

LamOf(D) ==
  LET n == Len(D.stack)
      every(list, x) == IF list # <<>> THEN list ELSE [k \in 1..n |-> x]
  IN  [stack |-> D.stack, plyts |-> every(D.plyts, D.plyt), props |-> every(D.props, D.prop),
       rhos |-> every(D.rhos, D.rho), off |-> D.offset, ortho |-> D.ortho]
Num(D) == 3 * D.m * D.n
A_(D) == R(D.a)
B_(D) == R(D.b)
Jac(D) == RDiv(RMul(A_(D), B_(D)), 4)
Curved(D) == D.r # "" /\ R(D.r) # R(0)
Zero == Mat(<<<<0>>>>)
S(ab, x) == IF ab THEN RAbs(x) ELSE x
M_(ab, A) == IF ab THEN MAbs(A) ELSE A

(***************************************************************************)
(* Vectors of Ritz constants, by description: entry k >= 0.                *)
(***************************************************************************)
VEntry(v, k) ==
  CASE v.k = "lcg"  -> LET q == k % 251
                           h == (v.p[1] * q * q + v.p[2] * k + v.p[3]) % 1009
                       IN  RMul(R(v.s), R(<<(h % 17) - 8, 8>>))
    [] v.k = "unit" -> IF k = v.p[1] THEN R(v.s) ELSE R(0)
    [] v.k = "zero" -> R(0)
    [] v.k = "coef" -> R(v.p[k + 1])

\* Coefficients of displacement d = 0, 1, 2 (u, v, w) as an m x n matrix, the domain starting at col0.
CMat(D, v, col0, d) == Mat([i \in 1..D.m |-> [j \in 1..D.n |-> VEntry(v, col0 + 3 * ((j - 1) * D.m + i - 1) + d)]])
XBasis(D, d) == Basis(D.fl[2 * d + 1], D.m)
YBasis(D, d) == Basis(D.fl[2 * d + 2], D.n)
FieldPoly(D, v, col0, d, ab) ==
  MMul(MMul(MTr(M_(ab, XBasis(D, d))), M_(ab, CMat(D, v, col0, d))), M_(ab, YBasis(D, d)))

\* The displacement polynomials and their derivatives along x and y.
Field(D, v, col0, ab) ==
  LET u == FieldPoly(D, v, col0, 0, ab)
      w0 == FieldPoly(D, v, col0, 2, ab)
      vv == FieldPoly(D, v, col0, 1, ab)
      dx(P) == MScale(RDiv(2, A_(D)), PDx(P))
      dy(P) == MScale(RDiv(2, B_(D)), PDy(P))
      wx == dx(w0)
      wy == dy(w0)
  IN  [u |-> u, v |-> vv, w |-> w0, ux |-> dx(u), uy |-> dy(u), vx |-> dx(vv), vy |-> dy(vv),
       wx |-> wx, wy |-> wy, wxx |-> dx(wx), wyy |-> dy(wy), wxy |-> dx(wy)]

\* Linear strains of a field F: exx, eyy, gxy, kxx, kyy, kxy.
LinStrain(D, F, ab) ==
  LET neg(k) == IF ab THEN R(k) ELSE R(-k) IN
  << F.ux,
     IF Curved(D) THEN MAdd(F.vy, MScale(RDiv(1, S(ab, R(D.r))), F.w)) ELSE F.vy,
     MAdd(F.uy, F.vx), MScale(neg(1), F.wxx), MScale(neg(1), F.wyy), MScale(neg(2), F.wxy) >>
\* The part of the strain variation along F that depends on the state F0, and the nonlinear strain of F0.
VarStrain(F0, F) ==
  << PMul(F0.wx, F.wx), PMul(F0.wy, F.wy), MAdd(PMul(F0.wx, F.wy), PMul(F0.wy, F.wx)) >>
QuadStrain(F0) ==
  << MScale(Half, PMul(F0.wx, F0.wx)), MScale(Half, PMul(F0.wy, F0.wy)), PMul(F0.wx, F0.wy) >>
\* What calc_fint of the pinned commit uses instead (see known_findings.json): twice the shear product.
QuadStrainTwice(F0) ==
  << MScale(Half, PMul(F0.wx, F0.wx)), MScale(Half, PMul(F0.wy, F0.wy)), MScale(2, PMul(F0.wx, F0.wy)) >>
Plus3(e, q) == [k \in 1..6 |-> IF k <= 3 THEN MAdd(e[k], q[k]) ELSE e[k]]

\* Strain variation about a state (nl) or not.
BStrain(D, F0, F, nl, ab) == IF nl THEN Plus3(LinStrain(D, F, ab), VarStrain(F0, F)) ELSE LinStrain(D, F, ab)
\* Total strain of a state.
Strain(D, F0, nl, ab) == IF nl THEN Plus3(LinStrain(D, F0, ab), QuadStrain(F0)) ELSE LinStrain(D, F0, ab)

\* Laminate stiffness times strains.  C: a sequence of <<weight polynomial, 6 x 6 matrix>>.
RECURSIVE PSum(_)
PSum(s) == IF s = <<>> THEN Zero ELSE MAdd(Head(s), PSum(Tail(s)))
Resultants(C, e) ==
  LET one(t, i) == PSum([j \in 1..6 |-> MScale(MGet(t[2], i, j), e[j])])
      wtd(t, i) == IF MRows(t[1]) = 1 /\ MCols(t[1]) = 1 THEN MScale(MGet(t[1], 1, 1), one(t, i)) ELSE PMul(t[1], one(t, i))
  IN  [i \in 1..6 |-> PSum([k \in 1..Len(C) |-> wtd(C[k], i)])]

One == Mat(<<<<1>>>>)
Uniform(L) == << <<One, LamABD(L)>> >>
UniformScale(L) == << <<One, LamScale(L)>> >>
\* Stiffness given at each integration point: weights times laminates.
Varying(vs) == [k \in 1..Len(vs) |-> <<Mat(vs[k].w), LamABD(vs[k].lam)>>]
VaryingScale(vs) == [k \in 1..Len(vs) |-> <<MAbs(Mat(vs[k].w)), LamScale(vs[k].lam)>>]
Stiff(D, var, ab) == IF var = <<>> THEN (IF ab THEN UniformScale(LamOf(D)) ELSE Uniform(LamOf(D)))
                     ELSE (IF ab THEN VaryingScale(var) ELSE Varying(var))

\* Integral over the shell (or over the part of it in D.sub), in physical units.
SubActive(p, q) == p # "" /\ q # ""
NatX(D, x) == RSub(RDiv(RMul(2, R(x)), A_(D)), 1)
NatY(D, y) == RSub(RDiv(RMul(2, R(y)), B_(D)), 1)
Integral(D, P, ab) ==
  LET sx == SubActive(D.sub[1], D.sub[2])
      sy == SubActive(D.sub[3], D.sub[4])
      x1 == IF sx THEN NatX(D, D.sub[1]) ELSE R(-1)
      x2 == IF sx THEN NatX(D, D.sub[2]) ELSE R(1)
      y1 == IF sy THEN NatY(D, D.sub[3]) ELSE R(-1)
      y2 == IF sy THEN NatY(D, D.sub[4]) ELSE R(1)
  IN  IF ab THEN RMul(RMul(4, Jac(D)), MGet(PInt(P, 0, 1, 0, 1), 1, 1))
      ELSE RMul(Jac(D), MGet(PInt(P, x1, x2, y1, y2), 1, 1))
Contract(e, s) == PSum([i \in 1..Len(e) |-> PMul(e[i], s[i])])

-----------------------------------------------------------------------------
(* Bilinear forms of two fields F1, F2 about a state F0. *)
KCForm(D, F1, F2, F0, nl, var, ab) ==
  Integral(D, Contract(BStrain(D, F0, F1, nl, ab), Resultants(Stiff(D, var, ab), BStrain(D, F0, F2, nl, ab))), ab)

\* Membrane forces <<Nxx, Nyy, Nxy>> of a state plus uniform ones.
MembraneForces(D, F0, nl, var, N, ab) ==
  LET s == Resultants(Stiff(D, var, ab), Strain(D, F0, nl, ab)) IN
  [k \in 1..3 |-> MAdd(s[k], Mat(<<<<S(ab, R(N[k]))>>>>))]
UniformForces(N, ab) == [k \in 1..3 |-> Mat(<<<<S(ab, R(N[k]))>>>>)]
KGForm(D, F1, F2, N, ab) ==
  Integral(D, PSum(<< PMul(N[1], PMul(F1.wx, F2.wx)), PMul(N[2], PMul(F1.wy, F2.wy)),
                      PMul(N[3], MAdd(PMul(F1.wx, F2.wy), PMul(F1.wy, F2.wx))) >>), ab)

\* Mass: mm = polynomials of <<i0, i1, i2>>; velocities u - z w,x, v - z w,y, w.
KMForm(D, F1, F2, mm, ab) ==
  LET neg == IF ab THEN R(1) ELSE R(-1) IN
  Integral(D, PSum(<< PMul(mm[1], PSum(<<PMul(F1.u, F2.u), PMul(F1.v, F2.v), PMul(F1.w, F2.w)>>)),
                      MScale(neg, PMul(mm[2], PSum(<<PMul(F1.u, F2.wx), PMul(F2.u, F1.wx), PMul(F1.v, F2.wy), PMul(F2.v, F1.wy)>>))),
                      PMul(mm[3], MAdd(PMul(F1.wx, F2.wx), PMul(F1.wy, F2.wy))) >>), ab)
ConstPoly(x) == Mat(<<<<x>>>>)
UniformMass(L, ab) == LET q == MassMoments(Thickness(L), LamRho(L), S(ab, R(L.off))) IN [k \in 1..3 |-> ConstPoly(q[k])]
\* thickness and density given at each integration point, as polynomials
VaryingMass(h, rho, d, ab) ==
  LET H == M_(ab, Mat(h))
      i0 == PMul(M_(ab, Mat(rho)), H)
      dd == S(ab, R(d))
  IN  << i0, MScale(dd, i0), PMul(i0, MAdd(MScale(R("1/12"), PMul(H, H)), ConstPoly(RMul(dd, dd)))) >>

\* Linear piston theory: row field F1, column field F2.
KAForm(D, F1, F2, flow, beta, gamma, ab) ==
  Integral(D, IF flow = "x" THEN MAdd(MScale(gamma, PMul(F1.w, F2.w)), MScale(beta, PMul(F1.w, F2.wx)))
              ELSE MScale(beta, PMul(F1.w, F2.wy)), ab)
WWForm(D, F1, F2, ab) == Integral(D, PMul(F1.w, F2.w), ab)

\* Internal force of the state F0 times F1 (correct), and with the known deviation of the shear strain.
FintForm(D, F1, F0, var, ab) ==
  Integral(D, Contract(BStrain(D, F0, F1, TRUE, ab), Resultants(Stiff(D, var, ab), Strain(D, F0, TRUE, ab))), ab)
FintFormTwice(D, F1, F0, var, ab) ==
  Integral(D, Contract(BStrain(D, F0, F1, TRUE, ab),
           Resultants(Stiff(D, var, ab), Plus3(LinStrain(D, F0, ab), QuadStrainTwice(F0)))), ab)

-----------------------------------------------------------------------------
(* Values at a point (x, y). *)
AtXY(D, P, x, y, ab) ==
  LET xi == NatX(D, x)   eta == NatY(D, y) IN MGet(PEval(P, S(ab, xi), S(ab, eta)), 1, 1)
\* u, v, w, phix, phiy
PointUVW(D, F, x, y, ab) ==
  LET neg == IF ab THEN R(1) ELSE R(-1) IN
  << AtXY(D, F.u, x, y, ab), AtXY(D, F.v, x, y, ab), AtXY(D, F.w, x, y, ab),
     RMul(neg, AtXY(D, F.wx, x, y, ab)), RMul(neg, AtXY(D, F.wy, x, y, ab)) >>
PointStrain(D, e, x, y, ab) == [k \in 1..6 |-> AtXY(D, e[k], x, y, ab)]

-----------------------------------------------------------------------------
(* Work of a load on the field F.  A load: [kind, x, y, cte, f] with f the three components: numbers (point), or
   polynomials of the physical coordinate along the line (line at x or at y), "" for none; pk the penalties that
   multiply each component ("1" for forces). *)
LinePolyX(D, P) ==      \* P(physical x) as a polynomial of xi: x = a (xi + 1)/2
  LET s == Mat(<<<<RDiv(A_(D), 2)>>, <<RDiv(A_(D), 2)>>>>)
      RECURSIVE H(_)
      H(c) == IF c = <<>> THEN Zero ELSE MAdd(ConstPoly(R(Head(c))), PMul(s, H(Tail(c))))
  IN  H(P)
LinePolyY(D, P) ==
  LET s == Mat(<<<<RDiv(B_(D), 2), RDiv(B_(D), 2)>>>>)
      RECURSIVE H(_)
      H(c) == IF c = <<>> THEN Zero ELSE MAdd(ConstPoly(R(Head(c))), PMul(s, H(Tail(c))))
  IN  H(P)
AbsTexts(c) == [i \in 1..Len(c) |-> RAbs(R(c[i]))]
\* Restriction of a polynomial to the line x = x0 (a row) or y = y0 (a column).
OnX(D, P, x0, ab) == MMul(MTr(Powers(MRows(P), S(ab, NatX(D, x0)))), P)
OnY(D, P, y0, ab) == MMul(P, Powers(MCols(P), S(ab, NatY(D, y0))))
IntY(D, row, ab) == RDiv(RMul(B_(D), IF ab THEN RMul(2, MGet(PInt(row, 0, 1, 0, 1), 1, 1)) ELSE RDiv(MGet(PInt(row, -1, 1, -1, 1), 1, 1), 2)), 2)
IntX(D, col, ab) == RDiv(RMul(A_(D), IF ab THEN RMul(2, MGet(PInt(col, 0, 1, 0, 1), 1, 1)) ELSE RDiv(MGet(PInt(col, -1, 1, -1, 1), 1, 1), 2)), 2)

LoadWork(D, ld, F, ab) ==
  LET P == <<F.u, F.v, F.w>>
      k(i) == S(ab, R(ld.pk[i]))
      one(i) ==
        CASE ld.kind = "point" -> RMul(S(ab, R(ld.f[i])), AtXY(D, P[i], ld.x, ld.y, ab))
          [] ld.kind = "linex" -> IF ld.f[i] = <<>> THEN R(0)
               ELSE IntY(D, PMul(LinePolyY(D, IF ab THEN AbsTexts(ld.f[i]) ELSE ld.f[i]), OnX(D, P[i], ld.x, ab)), ab)
          [] ld.kind = "liney" -> IF ld.f[i] = <<>> THEN R(0)
               ELSE IntX(D, PMul(LinePolyX(D, IF ab THEN AbsTexts(ld.f[i]) ELSE ld.f[i]), OnY(D, P[i], ld.y, ab)), ab)
  IN  RSumSeq([i \in 1..3 |-> RMul(k(i), one(i))])
FextForm(D, loads, F, inc, ab) ==
  RSumSeq([i \in 1..Len(loads) |-> RMul(IF loads[i].cte THEN R(1) ELSE S(ab, R(inc)), LoadWork(D, loads[i], F, ab))])
=============================================================================
