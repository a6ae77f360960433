----------------------------- MODULE ShellSelf -----------------------------
(***************************************************************************)
(* Laws of the shell specification, checked by TLC with exact arithmetic   *)
(* on a set of definitions: the forms really are what the properties say   *)
(* (Hessians and gradients of one energy, additive, invariant, ...).       *)
(***************************************************************************)
EXTENDS Shell, Cases
CONSTANTS Seed, Count

\* The strain energy of a state times a uniform membrane prestress is quadratic/quartic in the state: derivatives of a
\* polynomial of degree 4 in t are exact from five values.
D5(f(_)) == RDiv(RAdd(RSub(f(-2), f(2)), RMul(8, RSub(f(1), f(-1)))), 12)

AddF(F, G, t) == [q \in DOMAIN F |-> MAdd(F[q], MScale(R(t), G[q]))]
Energy(D, F) == LET e == Strain(D, F, TRUE, FALSE) IN RDiv(Integral(D, Contract(e, Resultants(Uniform(LamOf(D)), e)), FALSE), 2)

ShellLaws(k) ==
  LET D == Def(Seed, k, 0, 3, 4)
      Df == [D EXCEPT !.fl = [q \in 1..6 |-> Free]]
      c == Vec(Seed, k, 1000, "1/4")  v1 == Vec(Seed, k, 1010, "1")  v2 == Vec(Seed, k, 1020, "1")
      F == Field(D, c, 0, FALSE)   F1 == Field(D, v1, 0, FALSE)   F2 == Field(D, v2, 0, FALSE)
      kc(a, b, nl) == KCForm(D, a, b, F, nl, <<>>, FALSE)
      kg(a, b, G) == KGForm(D, a, b, MembraneForces(D, G, TRUE, <<>>, <<"0", "0", "0">>, FALSE), FALSE)
      fint(a, G) == FintForm(D, a, G, <<>>, FALSE)
      mm == UniformMass(LamOf(D), FALSE)
      km(a, b) == KMForm(D, a, b, mm, FALSE)
      const(p, q, r) == [u |-> ConstPoly(R(p)), v |-> ConstPoly(R(q)), w |-> ConstPoly(R(r)), ux |-> Zero, uy |-> Zero, vx |-> Zero, vy |-> Zero,
                         wx |-> Zero, wy |-> Zero, wxx |-> Zero, wyy |-> Zero, wxy |-> Zero]
      half(s) == [D EXCEPT !.sub = s]
      mid == RShow(RDiv(A_(D), 3))
      SumP == RAdd(KCForm(half(<<"0", mid, "", "">>), F1, F2, F, TRUE, <<>>, FALSE), KCForm(half(<<mid, D.a, "", "">>), F1, F2, F, TRUE, <<>>, FALSE))
      midy == RShow(RDiv(B_(D), 4))
      SumQ == RAdd(KMForm(half(<<"", "", "0", midy>>), F1, F2, mm, FALSE), KMForm(half(<<"", "", midy, D.b>>), F1, F2, mm, FALSE))
  IN  \* internal force is the gradient of the energy, tangent the derivative of the internal force
      /\ fint(F1, F) = D5(LAMBDA t : Energy(D, AddF(F, F1, t)))
      /\ RAdd(kc(F1, F2, TRUE), kg(F1, F2, F)) = D5(LAMBDA t : fint(F1, AddF(F, F2, t)))
      \* linear parts
      /\ fint(F1, Field(D, ZeroVec, 0, FALSE)) = R(0)
      /\ KCForm(D, F1, F2, Field(D, ZeroVec, 0, FALSE), TRUE, <<>>, FALSE) = kc(F1, F2, FALSE)
      \* symmetry and sign
      /\ kc(F1, F2, TRUE) = kc(F2, F1, TRUE) /\ kg(F1, F2, F) = kg(F2, F1, F) /\ km(F1, F2) = km(F2, F1)
      /\ RLe(0, kc(F1, F1, FALSE)) /\ RLe(0, kc(F1, F1, TRUE)) /\ (IF LamRho(LamOf(D)) = R(0) THEN km(F1, F1) = R(0) ELSE RLt(0, km(F1, F1)))
      /\ (D.ortho \/ RLt(0, kc(F1, F1, FALSE)))
      \* mass from the through-thickness moments: a rigid translation carries the whole mass
      /\ km(const(1, 0, 0), const(1, 0, 0)) = RMul(RMul(A_(D), B_(D)), RMul(LamRho(LamOf(D)), Thickness(LamOf(D))))
      \* rigid translations store no energy: along x always, in all directions if flat
      /\ KCForm(D, const(1, 0, 0), F2, F, FALSE, <<>>, FALSE) = R(0)
      /\ KCForm([D EXCEPT !.r = ""], const(1, 2, 3), F2, F, FALSE, <<>>, FALSE) = R(0)
      /\ KCForm(D, const(1, 2, 0), F2, F, FALSE, <<>>, FALSE) = R(0)
      \* convective aerodynamics is skew for supported edges
      /\ LET Ds == [D EXCEPT !.fl = [q \in 1..6 |-> Default]]
             G1 == Field(Ds, v1, 0, FALSE)   G2 == Field(Ds, v2, 0, FALSE)
         IN  \A fw \in {"x", "y"} : RAdd(KAForm(Ds, G1, G2, fw, R(2), R(0), FALSE), KAForm(Ds, G2, G1, fw, R(2), R(0), FALSE)) = R(0)
      \* additivity over partitions
      /\ SumP = kc(F1, F2, TRUE) /\ SumQ = km(F1, F2)
      \* the absolute versions bound the exact ones
      /\ LET G == Field(D, c, 0, TRUE)   G1 == Field(D, v1, 0, TRUE)   G2 == Field(D, v2, 0, TRUE) IN
         /\ RLe(RAbs(kc(F1, F2, TRUE)), KCForm(D, G1, G2, G, TRUE, <<>>, TRUE))
         /\ RLe(RAbs(km(F1, F2)), KMForm(D, G1, G2, UniformMass(LamOf(D), TRUE), TRUE))
         /\ RLe(RAbs(fint(F1, F)), FintForm(D, G1, G, <<>>, TRUE))
      \* zero flags: the displacement vanishes on the edge
      /\ LET Ds == [D EXCEPT !.fl = [q \in 1..6 |-> Default]]
             G1 == Field(Ds, v1, 0, FALSE)
         IN  PointUVW(Ds, G1, R(0), RDiv(B_(D), 3), FALSE)[3] = R(0) /\ PointUVW(Ds, G1, RDiv(A_(D), 3), B_(D), FALSE)[1] = R(0)
      \* laminates: symmetric stiffness; shifting the reference surface moves A into B and D
      /\ LET L == MixedLam(Seed, k, 500)
             L0 == [L EXCEPT !.off = "0"]
             C == LamABD(L)   C0 == LamABD(L0)   d == R(L.off)
         IN  /\ C = MTr(C)
             /\ \A i, j \in 1..3 : /\ MGet(C, i, j + 3) = RAdd(MGet(C0, i, j + 3), RMul(d, MGet(C0, i, j)))
                                   /\ MGet(C, i + 3, j + 3) = RAdd(MGet(C0, i + 3, j + 3), RAdd(RMul(RMul(2, d), MGet(C0, i, j + 3)), RMul(RMul(d, d), MGet(C0, i, j))))

VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Inv == ShellLaws(k)
=============================================================================
