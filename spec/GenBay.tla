------------------------------- MODULE GenBay -------------------------------
(***************************************************************************)
(* Behaviours over stiffened bays.                                         *)
(***************************************************************************)
EXTENDS Cases, Json
CONSTANTS Seed, Count, Prop, Lo, Hi, Steps

H(k, s) == Hash(Seed, k, s)
B(k, s) == Bool(Seed, k, s)

NoLam == [stack |-> <<>>, plyt |-> "", plyts |-> <<>>, prop |-> <<>>, props |-> <<>>]
\* A laminate of one ply or several; each its own thickness and material, or all alike.
Lam(k, s, pool) ==
  LET st == PickOf(pool, Seed, k, s)   n == Len(st)   each == B(k, s + 1) IN
  [stack |-> st, plyt |-> IF each THEN "" ELSE PickOf(PlyPool, Seed, k, s + 2), plyts |-> IF each THEN [i \in 1..n |-> PickOf(PlyPool, Seed, k, s + 10 + i)] ELSE <<>>,
   prop |-> IF each THEN <<>> ELSE PickOf(PropPool, Seed, k, s + 3), props |-> IF each THEN [i \in 1..n |-> PickOf(PropPool, Seed, k, s + 20 + i)] ELSE <<>>]
\* For beams: with and without coupling of extension and torsion.
CrossPool == << <<"0">>, <<"90">>, <<"0", "90", "0">>, <<"90", "0">> >>
AnglePool == << <<"45", "-45", "-45", "45">>, <<"p345", "-p345", "-p345", "p345">>, <<"-p512", "p512", "p512", "-p512">> >>
BeamLam(k, s) ==
  IF H(k, s + 34) % 3 = 0 THEN Lam(k, s, StackPool)
  ELSE IF B(k, s + 30) THEN Lam(k, s, CrossPool)
  ELSE [NoLam EXCEPT !.stack = PickOf(AnglePool, Seed, k, s + 31), !.plyt = PickOf(PlyPool, Seed, k, s + 32), !.prop = PickOf(PropPool, Seed, k, s + 33)]
Loads3(k, s) == IF H(k, s) % 3 = 0 THEN <<"0", "0", "0">> ELSE [q \in 1..3 |-> PickOf(NPool, Seed, k, s + q)]

\* A skin panel with everything of the bay, a stack of its own, or a laminate of its own.
OwnLam(k, s, d) ==
  CASE H(k, s) % 4 = 0 -> NoLam
    [] H(k, s) % 4 = 1 -> [NoLam EXCEPT !.stack = PickOf(StackPool, Seed, k, s + 1)]
    [] H(k, s) % 4 = 2 -> [NoLam EXCEPT !.plyt = PickOf(PlyPool, Seed, k, s + 2), !.prop = PickOf(PropPool, Seed, k, s + 3)]
    [] OTHER -> Lam(k, s + 4, StackPool)
Force(d, k, s) ==
  LET p == Point(d, Seed, k, s) IN [x |-> p[1], y |-> p[2], f |-> [i \in 1..3 |-> PickOf(ForcePool, Seed, k, s + 3 + i)]]

\* Lines that divide the skin, in sixteenths of the width.
CutPool == << <<>>, <<5>>, <<11>>, <<8>>, <<4, 9>>, <<5, 12>>, <<3, 8>> >>
Skins(k, d) ==
  LET cuts == PickOf(CutPool, Seed, k, 40)
      ys == <<"0">> \o [i \in 1..Len(cuts) |-> Frac(cuts[i], d.b)] \o <<d.b>>
      order == B(k, 41)      \* added from the last to the first
      one(i) == [y1 |-> ys[i], y2 |-> ys[i + 1], lam |-> OwnLam(k, 50 + 50 * i, d), rho |-> PickOf(<<"", "", "3", "1/2">>, Seed, k, 90 + i),
                 N |-> Loads3(k, 300 + 10 * i), Nc |-> IF H(k, 340 + i) % 4 = 0 THEN Loads3(k, 350 + 10 * i) ELSE <<"0", "0", "0">>]
      n == Len(ys) - 1
  IN  [cuts |-> [i \in 1..Len(cuts) |-> ys[i + 1]], list |-> [i \in 1..n |-> one(IF order THEN n + 1 - i ELSE i)]]
Stiff(k, i, d, cuts) ==
  LET s == 1000 + 200 * i
      edge == Len(cuts) = 0 \/ H(k, s) % 5 = 0
      parts == PickOf(IF Prop = "C04" THEN <<"both", "flange">> ELSE <<"both", "both", "flange", "base">>, Seed, k, s + 1)      \* half of the base of an edge overhangs
      kind == PickOf(IF Prop = "C04" THEN <<"1d", "2d", "2d", "2d">> ELSE <<"1d", "2d">>, Seed, k, s + 2)
      bf == PickOf(<<"1/4", "1/8", "3/10", "1/2">>, Seed, k, s + 3)
      plate == [d EXCEPT !.b = bf]
      mn == Terms(Seed, k, s + 100, Lo, Hi)
  IN  [kind |-> kind, ys |-> IF edge THEN PickOf(<<"0", d.b>>, Seed, k, s + 4) ELSE PickOf(cuts, Seed, k, s + 5),
       rho |-> PickOf(<<"", "4", "3/4">>, Seed, k, s + 6), bb |-> Frac(PickOf(<<1, 2, 3>>, Seed, k, s + 7), d.b),
       base |-> IF parts = "flange" THEN NoLam ELSE Lam(k, s + 10, StackPool),
       bf |-> bf, flange |-> IF parts = "base" THEN NoLam ELSE IF kind = "1d" THEN BeamLam(k, s + 50) ELSE Lam(k, s + 50, StackPool),
       Fx |-> PickOf(<<"0", "2", "-3/2">>, Seed, k, s + 8), mf |-> mn[1], nf |-> mn[2],
       N |-> Loads3(k, s + 110), forces |-> [q \in 1..(H(k, s + 120) % 3) |-> Force(plate, k, s + 120 + 10 * q)]]
Speeds == <<"3/2", "2", "5/4", "5/3", "13/5", "1", "13/12">>
Bay(k) ==
  LET d0 == Def(Seed, k, 0, Lo, Hi)
      \* plies all alike: what a panel is given alone combines with the bay's
      d == [d0 EXCEPT !.plyts = <<>>, !.props = <<>>, !.rhos = <<>>, !.offset = "0", !.ortho = FALSE,
            !.flow = PickOf(<<"x", "y">>, Seed, k, 20),
            !.beta = IF k % 3 = 0 THEN PickOf(<<"3", "-1/2">>, Seed, k, 21) ELSE "", !.gamma = IF k % 6 = 0 THEN "2/5" ELSE "",
            !.rho_air = "3/4", !.V = PickOf(<<"2", "5/2">>, Seed, k, 22), !.Mach = PickOf(Speeds, Seed, k, 23)]
      sk == Skins(k, d)
  IN  [skins |-> sk.list, stiffs |-> [i \in 1..(IF Prop = "C04" THEN 1 + (H(k, 42) % 4) ELSE H(k, 42) % 4) |-> Stiff(k, i, d, sk.cuts)], sound |-> PickOf(<<"3/2", "4">>, Seed, k, 24),
       mu |-> PickOf(<<"", "7/4">>, Seed, k, 25), forces |-> [q \in 1..(H(k, 43) % 3) |-> Force(d, k, 600 + 10 * q)]] @@ d

Plates(Y) == SelectSeq([i \in 1..Len(Y.stiffs) |-> i], LAMBDA i : Y.stiffs[i].kind = "2d" /\ Y.stiffs[i].flange.stack # <<>>)
RECURSIVE SumPl(_, _)
SumPl(Y, s) == IF s = <<>> THEN 0 ELSE 3 * Y.stiffs[Head(s)].mf * Y.stiffs[Head(s)].nf + SumPl(Y, Tail(s))
Size(Y) == 3 * Y.m * Y.n + SumPl(Y, Plates(Y))
Beams(Y) == \E i \in 1..Len(Y.stiffs) : Y.stiffs[i].kind = "1d"

BayEv(name, Y) == [op |-> "bay", Y |-> name, def |-> Y]
BEv(op, name, c, vecs) == [op |-> op, Y |-> name, c |-> c, vecs |-> vecs, strict |-> FALSE]
BField(name, si, c, pts, shape, gx, gy, cores) ==
  [op |-> "bField", Y |-> name, si |-> si, c |-> c, pts |-> pts, shape |-> shape, gridx |-> gx, gridy |-> gy, cores |-> cores]
PlatePoints(k, Y, i, s) == Points([Y EXCEPT !.b = Y.stiffs[i].bf], 4, Seed, k, s)
Turn(s, q) == LET n == Len(s)
                  r == [i \in 1..n |-> s[1 + ((i - 1 + q) % n)]]
              IN  IF q % 2 = 0 THEN r ELSE [i \in 1..n |-> r[n + 1 - i]]

\* The matrices of a stiffener by itself (after a calculation of the bay, which completes its panels), where it has no matrix at all none.
RECURSIVE PlaceOf(_, _)
PlaceOf(Y, i) == IF i = 1 THEN 3 * Y.m * Y.n
                 ELSE PlaceOf(Y, i - 1) + (LET s == Y.stiffs[i - 1] IN IF s.kind = "2d" /\ s.flange.stack # <<>> THEN 3 * s.mf * s.nf ELSE 0)
StiffEv(k, Y, i, call, v) ==
  IF Y.stiffs[i].flange.stack = <<>> /\ (call = "kG" \/ Y.stiffs[i].base.stack = <<>>) THEN <<>>
  ELSE LET s == Y.stiffs[i]
           state == s.kind = "2d" /\ B(k, 965 + i)      \* a state that the flange is in
           \* fourth powers need enough points of integration
           nl == state /\ s.mf >= 4 /\ s.nf >= 4 /\ B(k, 967 + i)
       IN
       << [op |-> "sMat", Y |-> "Y", i |-> i, call |-> call, c |-> IF call = "kG" /\ state THEN Vec(Seed, k, 975, "1/4") ELSE NoVec, NL |-> call = "kG" /\ nl, at |-> IF Y.stiffs[i].kind = "1d" THEN 0 ELSE PlaceOf(Y, i), fin |-> B(k, 960 + i), vecs |-> v] >>
Flat_(n, f(_)) == LET RECURSIVE F(_)
                      F(i) == IF i > n THEN <<>> ELSE f(i) \o F(i + 1)
                  IN  F(1)
StiffEvs(k, Y, v) ==
  LET n == Len(Y.stiffs) IN
  IF n = 0 THEN <<>>
  ELSE LET i == 1 + (H(k, 970) % n)   j == 1 + (H(k, 971) % n) IN
       StiffEv(k, Y, i, PickOf(<<"kC", "kM", "kG", "kG">>, Seed, k, 972), v) \o StiffEv(k, Y, j, PickOf(<<"kC", "kC", "kM", "kG", "kG">>, Seed, k, 973), v)
       \o Flat_(n, LAMBDA q : IF Y.stiffs[q].kind # "2d" \/ Y.stiffs[q].flange.stack = <<>> \/ Y.stiffs[q].mf < 4 \/ Y.stiffs[q].nf < 4 THEN <<>>
                              ELSE << [op |-> "sMat", Y |-> "Y", i |-> q, call |-> "kG", c |-> Vec(Seed, k, 976, "1/4"), NL |-> H(k, 977 + q) % 4 > 0, at |-> PlaceOf(Y, q), fin |-> B(k, 978 + q), vecs |-> v] >>)
FieldEvs(k, Y) ==
  LET c == Vec(Seed, k, 950, "1")   pl == Plates(Y)
      shape == PickOf(<< <<4>>, <<2, 2>>, <<1, 4>>, <<4, 1>> >>, Seed, k, 955) IN
  << BField("Y", 0, c, Points(Y, 4, Seed, k, 960), shape, 0, 0, PickOf(<<1, 3, 4, 8>>, Seed, k, 956)), BField("Y", 0, c, <<>>, <<>>, Range(1, 4, Seed, k, 961), Range(1, 4, Seed, k, 962), 0) >>
  \o [q \in 1..Len(pl) |-> BField("Y", pl[q], c, PlatePoints(k, Y, pl[q], 980 + 20 * q), shape, 0, 0, PickOf(<<0, 1, 3>>, Seed, k, 957))]
  \o (IF pl = <<>> THEN <<>> ELSE << BField("Y", pl[1], UnitVec(H(k, 958) % Size(Y)), <<>>, <<>>, Range(1, 3, Seed, k, 963), Range(1, 3, Seed, k, 964), 0) >>)
C18(k) ==
  LET Y == Bay(k)
      v == Vecs(Seed, k, 900, Size(Y))
      c == Vec(Seed, k, 930, "1/4")
      \* the same with the stiffeners in another order
      Z == [Y EXCEPT !.stiffs = IF Len(@) = 0 THEN @ ELSE Turn(@, H(k, 944))]
      calls == << BEv("bKC", "Y", NoVec, v), BEv("bKM", "Y", NoVec, v), BEv("bKG", "Y", IF Beams(Y) \/ B(k, 940) THEN NoVec ELSE c, v) >>
  IN  << BayEv("Y", Y) >>
      \o (IF B(k, 945) THEN << [op |-> "bSize", Y |-> "Y"] >> ELSE <<>>)
      \o Turn(calls, H(k, 941))
      \o << BayEv("Z", Z), BEv(PickOf(<<"bKC", "bKM", "bKG">>, Seed, k, 942), "Z", NoVec, v), BEv("bKC", "Y", NoVec, v), [op |-> "bSize", Y |-> "Y"] >>
      \o StiffEvs(k, Y, v)
      \o FieldEvs(k, Y)
C04(k) == LET Y == Bay(k) IN << BayEv("Y", Y) >> \o FieldEvs(k, Y) \o << [op |-> "bSize", Y |-> "Y"] >>
C10(k) ==
  LET Y == Bay(k)   v == Vecs(Seed, k, 900, Size(Y)) IN
  << BayEv("Y", Y), BEv("bFext", "Y", NoVec, v),
     [op |-> "bset", Y |-> "Y", attr |-> "forces", val |-> [q \in 1..(H(k, 700) % 4) |-> Force(Y, k, 710 + 10 * q)]], BEv("bFext", "Y", NoVec, v) >>
C12(k) ==
  LET Y == Bay(k)   v == Vecs(Seed, k, 900, Size(Y)) IN
  << BayEv("Y", Y), BEv("bKA", "Y", NoVec, v), BEv("bCA", "Y", NoVec, v),
     [op |-> "bset", Y |-> "Y", attr |-> PickOf(<<"Mach">>, Seed, k, 700), val |-> PickOf(Speeds, Seed, k, 701)],
     [op |-> "bset", Y |-> "Y", attr |-> "flow", val |-> PickOf(<<"x", "y">>, Seed, k, 702)],
     [op |-> "bset", Y |-> "Y", attr |-> "beta", val |-> PickOf(<<"", "", "3/2">>, Seed, k, 703)],
     BEv("bKA", "Y", NoVec, v), BEv("bCA", "Y", NoVec, v) >>
\* The fixed bay of the known finding.
Known ==
  LET d == [BlankDef EXCEPT !.m = 4, !.n = 4]
      sk(a, b) == [y1 |-> a, y2 |-> b, lam |-> NoLam, rho |-> "", N |-> <<"0", "0", "0">>, Nc |-> <<"0", "0", "0">>]
      Y == [skins |-> <<sk("0", "1/2"), sk("1/2", "1")>>, sound |-> "", mu |-> "", forces |-> <<>>,
            stiffs |-> << [kind |-> "1d", ys |-> "1/2", rho |-> "", bb |-> "1/8", base |-> NoLam, bf |-> "1/4",
                           flange |-> [NoLam EXCEPT !.stack = <<"0">>, !.plyt = "1/8", !.prop = PropPool[1]], Fx |-> "0", mf |-> 4, nf |-> 4,
                           N |-> <<"0", "0", "0">>, forces |-> <<>>] >>] @@ d
  IN  << BayEv("Y", Y), [BEv("bKC", "Y", NoVec, Vecs(1, 1, 900, Size(Y))) EXCEPT !.strict = TRUE] >>

-----------------------------------------------------------------------------
(* Histories of one bay: changes of what defines it between the calculations. *)
Run(Y, e) ==    \* what Step of Panels does to the bay
  CASE e.op = "bset" -> [Y EXCEPT ![e.attr] = e.val]
    [] e.op = "pset" -> IF e.attr \in {"N", "Nc", "rho"} THEN [Y EXCEPT !.skins[e.i][e.attr] = e.val] ELSE [Y EXCEPT !.skins[e.i].lam[e.attr] = e.val]
    [] e.op = "sset" -> IF e.attr \in {"N", "Fx", "forces"} THEN [Y EXCEPT !.stiffs[e.i][e.attr] = e.val] ELSE [Y EXCEPT !.stiffs[e.i].flange[e.attr] = e.val]
    [] OTHER -> Y
BSet(attr, val) == [op |-> "bset", Y |-> "Y", attr |-> attr, val |-> val]
PSet(i, attr, val) == [op |-> "pset", Y |-> "Y", i |-> i, attr |-> attr, val |-> val]
SSet(i, attr, val) == [op |-> "sset", Y |-> "Y", i |-> i, attr |-> attr, val |-> val]
SameLen(n) == SelectSeq(StackPool, LAMBDA q : Len(q) = n)
OwnStack(Y, i) == IF Y.skins[i].lam.stack # <<>> THEN Y.skins[i].lam.stack ELSE Y.stack
SetOf(Y, k, s) ==
  LET i == 1 + (H(k, s + 1) % Len(Y.skins))
      pl == Plates(Y)
      q == H(k, s) % 13
  IN  CASE q = 0 -> BSet("forces", [j \in 1..(H(k, s + 2) % 4) |-> Force(Y, k, s + 3 + 7 * j)])
        [] q = 1 -> BSet("Mach", PickOf(Speeds, Seed, k, s + 2))
        [] q = 2 -> BSet("beta", PickOf(<<"", "3/2">>, Seed, k, s + 2))
        [] q = 3 -> BSet(PickOf(<<"V", "rho_air", "sound">>, Seed, k, s + 2), PickOf(<<"2", "5/4", "3">>, Seed, k, s + 3))
        [] q \in {4, 5} -> PSet(i, "stack", PickOf(SameLen(Len(OwnStack(Y, i))), Seed, k, s + 2))
        [] q = 6 -> IF Y.skins[i].lam.plyts = <<>> THEN PSet(i, "plyt", PickOf(PlyPool, Seed, k, s + 2)) ELSE PSet(i, "rho", "5/4")
        [] q = 7 -> PSet(i, PickOf(<<"N", "N", "Nc">>, Seed, k, s + 2), Loads3(k, s + 3))
        [] q = 8 -> PSet(i, "rho", PickOf(RhoPool, Seed, k, s + 2))
        [] q \in {9, 10} /\ pl # <<>> ->
             LET j == PickOf(pl, Seed, k, s + 2) IN
             (CASE H(k, s + 3) % 3 = 0 -> SSet(j, "N", Loads3(k, s + 4))
                [] H(k, s + 3) % 3 = 1 -> SSet(j, "forces", [z \in 1..(H(k, s + 5) % 3) |-> Force([Y EXCEPT !.b = Y.stiffs[j].bf], k, s + 6 + 7 * z)])
                [] OTHER -> SSet(j, "stack", PickOf(SameLen(Len(Y.stiffs[j].flange.stack)), Seed, k, s + 4)))
        [] q \in {11, 12} /\ Beams(Y) ->
             LET j == CHOOSE z \in 1..Len(Y.stiffs) : Y.stiffs[z].kind = "1d" IN SSet(j, "Fx", PickOf(<<"0", "1", "-5/2">>, Seed, k, s + 2))
        [] OTHER -> BSet("flow", PickOf(<<"x", "y">>, Seed, k, s + 2))
CalcOf(Y, k, s) ==
  LET v == << Vec(Seed, k, s + 2, "1"), Vec(Seed, k, s + 5, "1") >>
      q == H(k, s) % 11
      pl == Plates(Y)
      c == Vec(Seed, k, s + 8, "1/4")
  IN  CASE q \in {0, 1} -> BEv("bKC", "Y", NoVec, v)
        [] q = 2 -> BEv("bKM", "Y", NoVec, v)
        [] q \in {3, 4} -> BEv("bKG", "Y", IF Beams(Y) \/ B(k, s + 9) THEN NoVec ELSE c, v)
        [] q = 5 -> BEv("bKA", "Y", NoVec, v)
        [] q = 6 -> BEv("bCA", "Y", NoVec, v)
        [] q = 7 -> BEv("bFext", "Y", NoVec, v)
        [] q = 8 -> BField("Y", 0, c, <<>>, <<>>, 3, 2, 0)
        [] q = 9 -> IF pl = <<>> THEN [op |-> "bSize", Y |-> "Y"] ELSE BField("Y", PickOf(pl, Seed, k, s + 10), c, <<>>, <<>>, 2, 3, 0)
        [] q = 10 -> [op |-> "breload", Y |-> "Y"]
Move17(Y, k, s) == IF H(k, s + 40) % 20 < 9 THEN SetOf(Y, k, s) ELSE CalcOf(Y, k, s)
RECURSIVE Walk(_, _, _)
Walk(Y, k, q) == IF q = 0 THEN <<>> ELSE LET e == Move17(Y, k, 3000 + 50 * q) IN <<e>> \o Walk(Run(Y, e), k, q - 1)
C17(k) == LET Y == Bay(k) IN << BayEv("Y", Y) >> \o Walk(Y, k, Steps)

(* Ill-posed requests, and well-posed ones next to them. *)
BBad(what, call, form, args) == [op |-> "bad", Y |-> "Y", what |-> what, call |-> call, form |-> form, args |-> args]
Bad(Y, k, s) ==
  LET q == H(k, s) % 17
      pl == Plates(Y)
      any == 1 + (H(k, s + 1) % 4)
      lengths == <<"2d", "short", "long", "ok">>
      shapes == PickOf(<< <<<<3>>, <<2>>>>, <<<<2, 3>>, <<3, 2>>>>, <<<<4>>, <<2, 2>>>>, <<<<2, 2>>, <<2, 2>>>>, <<<<1, 3>>, <<3>>>> >>, Seed, k, s + 2)
  IN  CASE q \in 0..3 -> << BBad("bstiff", PickOf(<<"1d", "2d">>, Seed, k, s + 1),
                               PickOf(<<"nostack", "nobply", "nobprop", "nofply", "nofprop", "line", "nopanels", "ok">>, Seed, k, s + 2), <<>>) >>
        [] q = 4 -> LET at == PickOf(<<"a", "b">>, Seed, k, s + 1) IN
                    << BSet(at, ""), BBad("bcall", PickOf(<<"bKC", "bKG", "bKM", "bKA", "bCA", "bFext", "bSize", "skin">>, Seed, k, s + 2), "ok", <<>>), BSet(at, Y[at]) >>
        [] q = 5 -> << BBad("bcall", "skin", PickOf(lengths, Seed, k, s + 2), <<>>) >>
        [] q = 6 -> IF Beams(Y) THEN << BBad("bcall", "bKG", "ok", <<>>) >> ELSE << BBad("bcall", "bKGc", PickOf(lengths, Seed, k, s + 2), <<>>) >>
        [] q = 7 -> IF pl = <<>> THEN << BBad("bcall", "bSize", "ok", <<>>) >>
                    ELSE << BBad("bflange", "", PickOf(lengths, Seed, k, s + 2), <<PickOf(pl, Seed, k, s + 3)>>) >>
        [] q = 8 -> << BBad("bregion", PickOf(<<"flange", "base", "web", "Flange">>, Seed, k, s + 2), "ok", <<any>>) >>
        [] q = 9 -> << BBad("bpoints", "", "", shapes) >>
        [] q = 10 -> LET at == PickOf(<<"Mach", "rho_air", "V", "sound">>, Seed, k, s + 1) IN
                     << BSet("beta", ""), BSet(at, ""), BBad("bcall", PickOf(<<"bKA", "bCA">>, Seed, k, s + 2), "ok", <<>>), BSet(at, Y[at]), BSet("beta", Y.beta) >>
        [] q = 11 -> << BSet("beta", ""), BSet("Mach", PickOf(<<"1/2", "9/10", "0", "1">>, Seed, k, s + 1)),
                        BBad("bcall", PickOf(<<"bKA", "bCA">>, Seed, k, s + 2), "ok", <<>>), BSet("Mach", Y.Mach), BSet("beta", Y.beta) >>
        [] q = 12 -> << BSet("flow", PickOf(<<"z", "xy", "">>, Seed, k, s + 1)), BBad("bcall", PickOf(<<"bKA", "bKA", "bCA">>, Seed, k, s + 2), "ok", <<>>), BSet("flow", Y.flow) >>
        [] q \in 14..16 ->      \* the laminate of one strip, where the bay has none for all
           LET i == 1 + (H(k, s + 1) % Len(Y.skins))
               l == Y.skins[i].lam
               at == PickOf(<<"stack", "plyt", "prop">>, Seed, k, s + 2)
               none == IF at = "plyt" THEN "" ELSE <<>>
               alone == CASE at = "stack" -> Y.stack = <<>> [] at = "plyt" -> Y.plyt = "" /\ Y.plyts = <<>> /\ l.plyts = <<>> [] OTHER -> Y.prop = <<>> /\ Y.props = <<>> /\ l.props = <<>>
           IN  IF alone THEN << PSet(i, at, none), BBad("bcall", PickOf(<<"bKC", "bKG", "bKM">>, Seed, k, s + 3), "ok", <<>>), PSet(i, at, l[at]) >>
               ELSE << BBad("bcall", "bSize", "ok", <<>>) >>
        [] q = 13 -> << BBad("bplot", PickOf(<<"skin", "flange">>, Seed, k, s + 1), PickOf(<<"vec", "ax", "ok">>, Seed, k, s + 2), IF pl = <<>> THEN <<>> ELSE <<pl[1]>>) >>
C20(k) == LET Y == Bay(k) IN
  << BayEv("Y", Y) >> \o Flat_(Steps, LAMBDA i : IF H(k, 3000 + 50 * i + 40) % 10 < 7 THEN Bad(Y, k, 3000 + 50 * i) ELSE << CalcOf(Y, k, 3000 + 50 * i) >>)

Case(k) == CASE Prop = "C18" -> IF k = 1 THEN Known ELSE C18(k) [] Prop = "C04" -> C04(k) [] Prop = "C10" -> C10(k) [] Prop = "C12" -> C12(k)
             [] Prop = "C17" -> C17(k) [] Prop = "C20" -> C20(k)
VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Out == PrintT(<<"CASE", ToJson([id |-> k, ev |-> Case(k)])>>)
=============================================================================
