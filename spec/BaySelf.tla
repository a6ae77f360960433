------------------------------ MODULE BaySelf ------------------------------
(***************************************************************************)
(* Laws of the stiffened bay: forms are symmetric, masses and stiffnesses  *)
(* never negative, panels that divide a uniform skin add up to the skin,   *)
(* the order of the stiffeners does not matter to the skin, a translation  *)
(* leaves the joint of a flange closed.                                    *)
(***************************************************************************)
EXTENDS Bay, Cases
CONSTANTS Seed, Count

NoLam == [stack |-> <<>>, plyt |-> "", plyts |-> <<>>, prop |-> <<>>, props |-> <<>>]
One1(k, s, pool) == [NoLam EXCEPT !.stack = PickOf(pool, Seed, k, s), !.plyt = PickOf(PlyPool, Seed, k, s + 1), !.prop = PickOf(PropPool, Seed, k, s + 2)]
Z3 == <<"0", "0", "0">>
Skin(y1, y2, lam) == [y1 |-> y1, y2 |-> y2, lam |-> lam, rho |-> "", N |-> Z3, Nc |-> Z3]
Blade(k, s, kind, ys, d, base) ==
  [kind |-> kind, ys |-> ys, rho |-> "3", bb |-> Frac(2, d.b), base |-> IF base THEN One1(k, s, StackPool) ELSE NoLam, bf |-> "1/4",
   flange |-> One1(k, s + 5, << <<"0">>, <<"90">>, <<"0", "90", "0">>, <<"45", "-45", "-45", "45">> >>), Fx |-> "2", mf |-> 3, nf |-> 4, N |-> Z3, forces |-> <<>>]
\* The same displacement everywhere.
Const(u, v, w) ==
  LET z == Zero IN [u |-> ConstPoly(R(u)), v |-> ConstPoly(R(v)), w |-> ConstPoly(R(w)), ux |-> z, uy |-> z, vx |-> z, vy |-> z,
                    wx |-> z, wy |-> z, wxx |-> z, wyy |-> z, wxy |-> z]
BayLaws(k) ==
  LET d0 == Def(Seed, k, 0, 3, 4)
      d == [d0 EXCEPT !.plyts = <<>>, !.props = <<>>, !.rhos = <<>>, !.offset = "0", !.ortho = FALSE, !.rho = "3/2"]
      ys == Frac(PickOf(<<5, 8, 11>>, Seed, k, 20), d.b)
      ab == << Blade(k, 100, "1d", ys, d, TRUE), Blade(k, 200, "2d", ys, d, Bool(Seed, k, 21)), Blade(k, 300, "2d", d.b, d, FALSE) >>
      bay(skins, stiffs) == [skins |-> skins, stiffs |-> stiffs, sound |-> "", mu |-> "", forces |-> <<>>] @@ d
      own == One1(k, 400, StackPool)
      Y == bay(<<Skin("0", ys, NoLam), Skin(ys, d.b, own)>>, ab)
      v1 == Vec(Seed, k, 1000, "1")   v2 == Vec(Seed, k, 1003, "1")
      F == BayField(Y, v1, FALSE)   G == BayField(Y, v2, FALSE)
      \* the same fields, stiffeners listed from the last to the first
      rev(X) == [X EXCEPT !.fl = <<X.fl[3], X.fl[2], X.fl[1]>>]
      W == [Y EXCEPT !.stiffs = <<ab[3], ab[2], ab[1]>>]
      Kc(A, P, Q) == BayKC(A, P, Q, FALSE, FALSE)
      plain == bay(<<Skin("0", ys, NoLam), Skin(ys, d.b, NoLam)>>, <<>>)
      whole == bay(<<Skin("0", d.b, NoLam)>>, <<>>)
      D == SkinOnly(d)
      fs == Field(D, v1, 0, FALSE)   gs == Field(D, v2, 0, FALSE)
      z(A) == [skin |-> A, fl |-> <<>>]
  IN  /\ Kc(Y, F, G) = Kc(Y, G, F) /\ BayKM(Y, F, G, FALSE) = BayKM(Y, G, F, FALSE)
      /\ RLe(0, Kc(Y, F, F)) /\ RLe(0, BayKM(Y, F, F, FALSE)) /\ RLe(RSq(BayKM(Y, F, G, FALSE)), RMul(BayKM(Y, F, F, FALSE), BayKM(Y, G, G, FALSE)))
      /\ Kc(Y, F, G) = Kc(W, rev(F), rev(G)) /\ BayKM(Y, F, G, FALSE) = BayKM(W, rev(F), rev(G), FALSE)
      /\ BayTotal(Y) = BayTotal(W) /\ BayTotal(Y) = 3 * d.m * d.n + 3 * 3 * 4 * 2
      \* panels of one laminate make one skin, and that is the shell
      /\ Kc(plain, z(fs), z(gs)) = Kc(whole, z(fs), z(gs)) /\ Kc(whole, z(fs), z(gs)) = KCForm(D, fs, gs, fs, FALSE, <<>>, FALSE)
      /\ BayKM(plain, z(fs), z(gs), FALSE) = KMForm(D, fs, gs, UniformMass(LamOf(D), FALSE), FALSE)
      \* a translation: v of the flange is along -z of the skin, w along y
      /\ LET sk == Const("1", "2", "-3")   fl == Const("1", "3", "2")
             g == FlangeGap(Y, ab[2], sk, fl, FALSE)
         IN  JointForm(Y, ab[2], g, g, FALSE) = R(0)
      /\ RLt(0, JointForm(Y, ab[2], FlangeGap(Y, ab[2], F.skin, F.fl[2], FALSE), FlangeGap(Y, ab[2], F.skin, F.fl[2], FALSE), FALSE))
      \* a beam that translates has the energy of its mass only
      /\ LET t == Const("1", "2", "-1") IN
         /\ BeamKC(Y, ab[1], t, t, FALSE, FALSE) = R(0)
         /\ BeamKM(Y, ab[1], t, t, FALSE) = RMul(6, RMul(R("3"), RMul(A_(Y), RMul(R("1/4"), Thick(ab[1].flange)))))
      /\ RLt(0, BeamKC(Y, ab[1], F.skin, F.skin, FALSE, FALSE))
      \* absolute values bound
      /\ LET Fa == BayField(Y, v1, TRUE)   Ga == BayField(Y, v2, TRUE) IN
         /\ RLe(RAbs(Kc(Y, F, G)), BayKC(Y, Fa, Ga, FALSE, TRUE)) /\ RLe(RAbs(BayKM(Y, F, G, FALSE)), BayKM(Y, Fa, Ga, TRUE))
         /\ RLe(RAbs(BayKG(Y, F, G, F, FALSE)), BayKG(Y, Fa, Ga, Fa, TRUE))
      /\ BayKG(Y, F, G, F, FALSE) = BayKG(Y, G, F, F, FALSE)

VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Inv == BayLaws(k)
=============================================================================
