------------------------------ MODULE GenShell ------------------------------
(***************************************************************************)
(* Behaviours over one shell, per property.                                *)
(***************************************************************************)
EXTENDS Cases, Json
CONSTANTS Seed, Count, Prop, Lo, Hi

NumOf(d) == 3 * d.m * d.n
H(k, s) == Hash(Seed, k, s)
B(k, s) == Bool(Seed, k, s)

\* Integration orders that are exact: nl counts how many times the degree of w enters, wd the degree of the weights.
Deg(m) == IF m < 4 THEN 3 ELSE m - 1
Exact(m, nl, wd, extra) == (nl * Deg(m) + wd) \div 2 + 1 + extra
ExactOrder(d, nl, wd, k, s) == Order(Exact(d.m, nl, wd, H(k, s) % 3), Exact(d.n, nl, wd, H(k, s + 1) % 3))
\* A partial domain needs the same orders.  The default order 2m is exact for nl = 2 if m >= 4 and for nl = 4 if m >= 4.

StateAmp(k) == PickOf(<<"1/4", "1/8", "1/2">>, Seed, k, 77)

\* Shell with at least 4 terms, for calls that use the default integration order
DefN(k, s) == LET d == Def(Seed, k, s, Lo, Hi) IN [d EXCEPT !.m = IF @ < 4 THEN 4 ELSE @, !.n = IF @ < 4 THEN 4 ELSE @]

Grid(k) == <<Range(1, 5, Seed, k, 91), Range(1, 4, Seed, k, 92)>>
FieldCase(op, d, k, s, nl, var) ==
  LET pts == Points(d, 8, Seed, k, s)
      shape == PickOf(<< <<8>>, <<2, 4>>, <<4, 2>>, <<2, 2, 2>>, <<1, 8>> >>, Seed, k, s + 50)
      e == IF B(k, s + 51) THEN FieldEv(op, "s", Vec(Seed, k, s + 52, "1"), pts, shape, 0, 0, PickOf(<<0, 1, 2, 3, 5, 8, 16>>, Seed, k, s + 55))
           ELSE FieldEv(op, "s", Vec(Seed, k, s + 52, "1"), <<>>, <<>>, Grid(k)[1], Grid(k)[2], PickOf(<<0, 1, 3, 7>>, Seed, k, s + 55))
  IN  [e EXCEPT !.NL = nl, !.var = var]

C04(k) == LET d == Def(Seed, k, 0, Lo, Hi) IN
  << NewShell("s", d), FieldCase("uvw", d, k, 1000, FALSE, <<>>),
     [FieldCase("uvw", d, k, 2000, FALSE, <<>>) EXCEPT !.c = UnitVec(H(k, 3000) % NumOf(d))] >>
C05(k) == LET d == Def(Seed, k, 0, Lo, Hi)
              lam == << [w |-> <<<<"1">>>>, lam |-> MixedLam(Seed, k, 700)] >>
          IN
  << NewShell("s", d), FieldCase("strain", d, k, 1000, B(k, 5), <<>>), FieldCase("stress", d, k, 2000, B(k, 6), IF B(k, 7) THEN lam ELSE <<>>) >>

C06(k) ==
  LET d0 == Def(Seed, k, 0, Lo, Hi)
      dn == DefN(k, 0)
      v(d) == Vecs(Seed, k, 900, NumOf(d))
      c == Vec(Seed, k, 950, StateAmp(k))
      Nc == [i \in 1..3 |-> PickOf(NPool, Seed, k, 960 + i)]
      mode == k % 6
      d == CASE mode \in {0, 1} -> d0 [] mode = 2 -> dn [] mode = 3 -> d0 [] mode = 4 -> [d0 EXCEPT !.Nc = Nc] [] mode = 5 -> [dn EXCEPT !.Nc = IF B(k, 8) THEN Nc ELSE @]
  IN  << NewShell("s", d),
         CASE mode \in {0, 1} -> KC("s", Own, NoOrder, NoVec, NoVec, <<>>, FALSE, v(d))
           [] mode = 2 -> IF B(k, 9) THEN KC("s", Own, NoOrder, c, NoVec, <<>>, TRUE, v(d)) ELSE KC("s", Own, NoOrder, c, NoVec, <<>>, FALSE, v(d))
           [] mode = 3 -> KC("s", Own, ExactOrder(d, 4, 3, k, 970), IF B(k, 10) THEN c ELSE NoVec, NoVec, Varied(Seed, k, 980), B(k, 11), v(d))
           [] mode = 4 -> KC("s", Own, NoOrder, NoVec, NoVec, <<>>, FALSE, v(d))
           [] mode = 5 -> KC("s", Own, ExactOrder(d, 4, 0, k, 970), IF B(k, 10) THEN Vec(Seed, k, 990, "1/4") ELSE NoVec, c, <<>>, B(k, 12), v(d)) >>

C07(k) ==
  LET N == [i \in 1..3 |-> PickOf(NPool, Seed, k, 960 + i)]
      d0 == [Def(Seed, k, 0, Lo, Hi) EXCEPT !.N = N]
      dn == [DefN(k, 0) EXCEPT !.N = IF B(k, 8) THEN N ELSE @]
      c == Vec(Seed, k, 950, StateAmp(k))
      v(d) == Vecs(Seed, k, 900, NumOf(d))
  IN  CASE k % 4 = 0 -> << NewShell("s", d0), KG("s", Own, NoOrder, NoVec, <<>>, FALSE, v(d0)) >>
        [] k % 4 = 1 -> << NewShell("s", dn), KG("s", Own, NoOrder, c, <<>>, FALSE, v(dn)) >>
        [] k % 4 = 2 -> << NewShell("s", dn), KG("s", Own, ExactOrder(dn, 4, 0, k, 970), c, <<>>, TRUE, v(dn)) >>
        [] k % 4 = 3 -> << NewShell("s", dn), KG("s", Own, ExactOrder(dn, 4, 3, k, 970), c, Varied(Seed, k, 980), B(k, 11), v(dn)) >>

C08(k) ==
  LET d == Def(Seed, k, 0, Lo, Hi)
      h == << <<"1/4", "1/16">>, <<"1/32", "0">> >>
      rho == PickOf(WeightPool, Seed, k, 960)
      v == Vecs(Seed, k, 900, NumOf(d))
  IN  << NewShell("s", d),
         CASE k % 3 = 0 -> KM("s", Own, NoOrder, <<>>, <<>>, v)
           [] k % 3 = 1 -> KM("s", Own, ExactOrder(d, 2, 8, k, 970), h, IF B(k, 961) THEN rho ELSE <<>>, v)
           [] k % 3 = 2 -> KM("s", Own, ExactOrder(d, 2, 8, k, 970), <<>>, rho, v) >>

C09(k) ==
  LET d == DefN(k, 0)
      c == Vec(Seed, k, 950, StateAmp(k))
      v == Vecs(Seed, k, 900, NumOf(d))
  IN  << NewShell("s", d) >> \o
      (CASE k % 3 = 0 -> << FINT("s", Own, NoOrder, c, <<>>, v), KT("s", Own, NoOrder, c, <<>>, v) >>
         [] k % 3 = 1 -> << FINT("s", Own, ExactOrder(d, 4, 3, k, 970), c, Varied(Seed, k, 980), v),
                            KT("s", Own, ExactOrder(d, 4, 3, k, 970), c, Varied(Seed, k, 980), v) >>
         [] k % 3 = 2 -> << FINT("s", Own, NoOrder, IF B(k, 13) THEN ZeroVec ELSE [c EXCEPT !.s = "1/4096"], <<>>, v),
                            KT("s", Own, NoOrder, NoVec, <<>>, v) >>)

\* Loads: the line loads use at least four points along the line, exact for the functions tried.
Loaded(k, via, n) == LET d == Def(Seed, k, 0, 1, Hi) IN [d EXCEPT !.loads = [i \in 1..n |-> Load(d, via, Seed, k, 1000 + 100 * i)]]
C10(k) ==
  LET d == Loaded(k, "load", IF k % 7 = 0 THEN 0 ELSE Range(1, 5, Seed, k, 970))
      v == Vecs(Seed, k, 900, NumOf(d))
      rev == [d EXCEPT !.loads = [i \in 1..Len(@) |-> @[Len(@) + 1 - i]]]
  IN  << NewShell("s", d), FEXT("s", Own, PickOf(Incs, Seed, k, 971), v), LoadEv("s", Load(d, "load", Seed, k, 5000)),
         FEXT("s", Place(Seed, k, 972), PickOf(Incs, Seed, k, 973), v),
         NewShell("t", rev), FEXT("t", Own, "1/2", v) >>
Ons == << <<TRUE, TRUE, TRUE, FALSE, FALSE>>, <<TRUE, FALSE, FALSE, FALSE, TRUE>>, <<FALSE, TRUE, FALSE, TRUE, FALSE>>, <<FALSE, FALSE, TRUE, TRUE, TRUE>>,
          <<FALSE, FALSE, FALSE, FALSE, FALSE>> >>
C11(k) ==
  LET d == Loaded(k, "pd", Range(1, 4, Seed, k, 970))
      v == Vecs(Seed, k, 900, NumOf(d))
      pt == Point(d, Seed, k, 940)
  IN  << NewShell("s", d), FEXT("s", Own, PickOf(Incs, Seed, k, 971), v), LoadEv("s", Load(d, "load", Seed, k, 5000)),
         FEXT("s", Place(Seed, k, 972), PickOf(Incs, Seed, k, 973), v),
         KPC("s", pt[1], pt[2], PickOf(Ons, Seed, k, 974), PickOf(PointPen, Seed, k, 975), PickOf(PointPenRot, Seed, k, 976), v) >>

Machs == <<"5/4", "5/3", "13/5", "13/12", "17/8", "1", "3/2", "2", "6/5">>
\* the aerodynamic matrix is not symmetric: its rows and columns can start at different places
PlaceA(k, s) == LET pl == Place(Seed, k, s) IN
  IF pl.size = "none" \/ B(k, s + 5) THEN pl
  ELSE LET o == PickOf(<<0, 1, 4, 9>>, Seed, k, s + 6) IN [pl EXCEPT !.col0 = o, !.pad = IF @ < o THEN o ELSE @]
C12(k) ==
  LET d0 == DefN(k, 0)
      given == B(k, 960)
      d == [d0 EXCEPT !.flow = PickOf(<<"x", "y", "X", "Y">>, Seed, k, 961),
                      !.beta = IF given THEN PickOf(<<"2", "-1/2", "7/4">>, Seed, k, 962) ELSE "",
                      !.gamma = IF given /\ B(k, 963) THEN PickOf(<<"1/3", "3/2", "-1/2">>, Seed, k, 964) ELSE "",
                      !.rho_air = IF given THEN "" ELSE PickOf(RhoPool, Seed, k, 965), !.V = IF given THEN "" ELSE PickOf(<<"2", "3/2", "-2">>, Seed, k, 966),
                      !.Mach = IF given THEN "" ELSE PickOf(Machs, Seed, k, 967)]
      v == Vecs(Seed, k, 900, NumOf(d))
  IN  << NewShell("s", d), KA("s", PlaceA(k, 970), v), CA("s", Own, PickOf(<<"1", "3/2", "-2">>, Seed, k, 971), v), KA("s", Own, v) >>

C13(k) ==
  LET d0 == DefN(k, 0)
      \* every kind of calculation over every kind of part
      part == SubAt(d0, (k \div 12) + Seed)
      d == [d0 EXCEPT !.sub = part, !.N = [i \in 1..3 |-> PickOf(NPool, Seed, k, 955 + i)], !.beta = "3/2", !.gamma = "1/2"]
      c == Vec(Seed, k, 960, StateAmp(k))
      v == Vecs(Seed, k, 900, NumOf(d))
      pl == Place(Seed, k, 965)
      od(nl) == IF B(k, 966) THEN NoOrder ELSE ExactOrder(d, nl, 3, k, 970)
  IN  << NewShell("s", d),
         CASE k % 12 = 0 -> KC("s", pl, od(4), NoVec, NoVec, <<>>, FALSE, v)
           [] k % 12 = 1 -> KC("s", pl, od(4), IF B(k, 967) THEN c ELSE NoVec, NoVec, <<>>, TRUE, v)
           [] k % 12 = 2 -> KC("s", pl, od(4), c, NoVec, <<>>, B(k, 968), v)
           [] k % 12 = 3 -> KC("s", pl, od(4), IF B(k, 967) THEN c ELSE NoVec, Vec(Seed, k, 962, StateAmp(k)), <<>>, FALSE, v)
           [] k % 12 = 4 -> KG("s", pl, od(4), NoVec, <<>>, FALSE, v)
           [] k % 12 = 5 -> KG("s", pl, od(4), c, <<>>, B(k, 968), v)
           [] k % 12 = 6 -> KT("s", pl, od(4), c, <<>>, v)
           [] k % 12 = 7 -> KM("s", pl, od(4), <<>>, <<>>, v)
           [] k % 12 = 8 -> KA("s", PlaceA(k, 965), v)
           [] k % 12 = 9 -> FINT("s", pl, od(4), c, <<>>, v)
           [] k % 12 = 10 -> KC("s", pl, ExactOrder(d, 4, 3, k, 970), c, NoVec, Varied(Seed, k, 980), TRUE, v)
           [] k % 12 = 11 -> KM("s", pl, ExactOrder(d, 2, 8, k, 970), << <<"1/4", "1/16">> >>, PickOf(WeightPool, Seed, k, 990), v),
         \* the same over the whole domain
         SetEv("s", "sub", <<"", "", "", "">>),
         CASE k % 4 = 0 -> KC("s", pl, NoOrder, NoVec, NoVec, <<>>, FALSE, v)
           [] k % 4 = 1 -> KG("s", pl, NoOrder, NoVec, <<>>, FALSE, v)
           [] k % 4 = 2 -> KM("s", pl, NoOrder, <<>>, <<>>, v)
           [] k % 4 = 3 -> KT("s", pl, NoOrder, c, <<>>, v) >>

Strict(ev) == [i \in 1..Len(ev) |-> IF ev[i].op = "fint" THEN [ev[i] EXCEPT !.strict = TRUE] ELSE ev[i]]
Case(k) == CASE Prop = "C04" -> C04(k) [] Prop = "C05" -> C05(k) [] Prop = "C06" -> C06(k) [] Prop = "C07" -> C07(k) [] Prop = "C08" -> C08(k)
             [] Prop = "C09" -> Strict(C09(k)) [] Prop = "C10" -> C10(k) [] Prop = "C11" -> C11(k) [] Prop = "C12" -> C12(k) [] Prop = "C13" -> C13(k)
VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Out == PrintT(<<"CASE", ToJson([id |-> k, ev |-> Case(k)])>>)
=============================================================================
