------------------------------ MODULE Laminate ------------------------------
(***************************************************************************)
(* Classical laminated plate theory: the 6 x 6 stiffness of a laminate and *)
(* its mass per area.  Ply angles are named; each name stands for          *)
(* <<cos^2, sin^2, cos sin>>, which is rational for the angles used.       *)
(***************************************************************************)
EXTENDS Base

Trig(name) ==
  CASE name = "0"     -> <<"1", "0", "0">>
    [] name = "90"    -> <<"0", "1", "0">>
    [] name = "45"    -> <<"1/2", "1/2", "1/2">>
    [] name = "-45"   -> <<"1/2", "1/2", "-1/2">>
    [] name = "p345"  -> <<"16/25", "9/25", "12/25">>
    [] name = "-p345" -> <<"16/25", "9/25", "-12/25">>
    [] name = "p512"  -> <<"144/169", "25/169", "60/169">>
    [] name = "-p512" -> <<"144/169", "25/169", "-60/169">>
    [] name = "q345"  -> <<"9/25", "16/25", "12/25">>

\* <<Q11, Q12, Q22, Q66>> of a ply: two properties (isotropic E, nu) or E1, E2, nu12, G12, ...
PlyQ(p) ==
  LET iso == Len(p) = 2
      e1 == R(p[1])
      e2 == IF iso THEN e1 ELSE R(p[2])
      nu12 == IF iso THEN R(p[2]) ELSE R(p[3])
      g12 == IF iso THEN RDiv(e1, RMul(2, RAdd(1, nu12))) ELSE R(p[4])
      nu21 == RDiv(RMul(nu12, e2), e1)
      den == RSub(1, RMul(nu12, nu21))
  IN  <<RDiv(e1, den), RDiv(RMul(nu12, e2), den), RDiv(e2, den), g12>>

\* 3 x 3 stiffness of a ply in laminate axes (engineering shear strain).
PlyQbar(p, name) ==
  LET q == PlyQ(p)
      t == Trig(name)
      c2 == R(t[1])   s2 == R(t[2])   cs == R(t[3])
      q11 == q[1]   q12 == q[2]   q22 == q[3]   q66 == q[4]
      x == RMul(c2, s2)
      c4 == RMul(c2, c2)   s4 == RMul(s2, s2)
      h == RMul(2, RAdd(q12, RMul(2, q66)))
      b11 == RAdd(RAdd(RMul(q11, c4), RMul(h, x)), RMul(q22, s4))
      b22 == RAdd(RAdd(RMul(q11, s4), RMul(h, x)), RMul(q22, c4))
      b12 == RAdd(RMul(RSub(RAdd(q11, q22), RMul(4, q66)), x), RMul(q12, RAdd(c4, s4)))
      b66 == RAdd(RMul(RSub(RAdd(q11, q22), RMul(2, RAdd(q12, q66))), x), RMul(q66, RAdd(c4, s4)))
      d1 == RSub(RSub(q11, q12), RMul(2, q66))
      d2 == RAdd(RSub(q12, q22), RMul(2, q66))
      b16 == RMul(cs, RAdd(RMul(d1, c2), RMul(d2, s2)))
      b26 == RMul(cs, RAdd(RMul(d1, s2), RMul(d2, c2)))
  IN  Mat(<< <<b11, b12, b16>>, <<b12, b22, b26>>, <<b16, b26, b66>> >>)

(***************************************************************************)
(* A laminate is [stack, plyts, props, rhos, off, ortho]: names of the     *)
(* angles, and per ply thickness, properties and density; offset of the    *)
(* mid-surface; TRUE to neglect the normal-shear couplings.                *)
(***************************************************************************)
NPlies(L) == Len(L.stack)
Thickness(L) == RSumSeq([k \in 1..NPlies(L) |-> R(L.plyts[k])])
RECURSIVE ZBottom(_, _)
ZBottom(L, k) == IF k = 1 THEN RSub(R(L.off), RDiv(Thickness(L), 2)) ELSE RAdd(ZBottom(L, k - 1), R(L.plyts[k - 1]))

RECURSIVE MSumSeq(_)
MSumSeq(s) == IF Len(s) = 1 THEN s[1] ELSE MAdd(Head(s), MSumSeq(Tail(s)))

\* n-th moment of the stiffness: n = 0, 1, 2 for A, B, D
LamMoment(L, n) ==
  LET P(k) == LET z0 == ZBottom(L, k)
                  z1 == RAdd(z0, R(L.plyts[k]))
                  pw(z) == IF n = 0 THEN z ELSE IF n = 1 THEN RMul(z, z) ELSE RMul(z, RMul(z, z))
              IN  MScale(RDiv(RSub(pw(z1), pw(z0)), n + 1), PlyQbar(L.props[k], L.stack[k]))
  IN  MSumSeq([k \in 1..NPlies(L) |-> P(k)])

\* entries 1,3 and 2,3 of every 3 x 3 block
Shear3(i, j) == (i = 3) # (j = 3)
LamABD(L) ==
  LET a == LamMoment(L, 0)   b == LamMoment(L, 1)   d == LamMoment(L, 2)
      blk(i, j) == IF i <= 3 /\ j <= 3 THEN MGet(a, i, j)
                   ELSE IF i > 3 /\ j > 3 THEN MGet(d, i - 3, j - 3)
                   ELSE MGet(b, IF i > 3 THEN i - 3 ELSE i, IF j > 3 THEN j - 3 ELSE j)
      loc(i) == IF i > 3 THEN i - 3 ELSE i
  IN  Mat([i \in 1..6 |-> [j \in 1..6 |-> IF L.ortho /\ Shear3(loc(i), loc(j)) THEN R(0) ELSE blk(i, j)]])

\* Bound of the absolute terms that make up each entry (error scale).
LamScale(L) ==
  LET h == Thickness(L)
      z == RAdd(RDiv(h, 2), RAbs(R(L.off)))
      qs == RSumSeq([k \in 1..NPlies(L) |-> LET q == PlyQ(L.props[k]) IN RMul(4, RAdd(q[1], RAdd(q[3], q[4])))])
      s(i, j) == LET x == RMul(qs, h) IN IF i <= 3 /\ j <= 3 THEN x ELSE IF i > 3 /\ j > 3 THEN RMul(x, RMul(z, z)) ELSE RMul(x, z)
  IN  Mat([i \in 1..6 |-> [j \in 1..6 |-> s(i, j)]])

\* Density of the laminate: mass per area over the thickness.
LamRho(L) == RDiv(RSumSeq([k \in 1..NPlies(L) |-> RMul(R(L.rhos[k]), R(L.plyts[k]))]), Thickness(L))
\* <<i0, i1, i2>>: integrals of rho, rho z, rho z^2 through a thickness h about a mid-surface at offset d.
MassMoments(h, rho, d) ==
  LET i0 == RMul(rho, h) IN
  <<i0, RMul(i0, d), RMul(i0, RAdd(RDiv(RMul(h, h), 12), RMul(d, d)))>>
=============================================================================
