------------------------------ MODULE GenPlot -------------------------------
(***************************************************************************)
(* Behaviours that draw: contour plots of shells, of groups of domains and *)
(* of the parts of stiffened bays, with fields calculated before and after.*)
(***************************************************************************)
EXTENDS Cases, Json
CONSTANTS Seed, Count, Prop, Lo, Hi, Steps
As == INSTANCE GenAsm WITH k <- 0
Bs == INSTANCE GenBay WITH k <- 0
H(k, s) == Hash(Seed, k, s)
B(k, s) == Bool(Seed, k, s)

\* Levels between ends given (which may exclude values), or of the field itself.
Ends(k, s) == PickOf(<< <<"", "">>, <<"", "">>, <<"-3/2", "5/4">>, <<"-40", "">>, <<"", "60">>, <<"1/2", "-1/2">>,
  <<"0", "2">>, <<"-2", "0">> >>, Seed, k, s)
Look(k, s) == LET en == Ends(k, s) IN
  [op |-> "draw", c |-> Vec(Seed, k, s + 1, "1"), NL |-> TRUE, vmin |-> en[1], vmax |-> en[2], levels |-> Range(2, 7, Seed, k, s + 2),
   save |-> B(k, s + 3), ax |-> H(k, s + 4) % 3 = 0, down |-> B(k, s + 5), bar |-> B(k, s + 6), file |-> PickOf(<<"", "p.png">>, Seed, k, s + 7),
   deform |-> "", off |-> <<"0", "0">>, pts |-> <<>>, shape |-> <<>>, gridx |-> Range(2, 4, Seed, k, s + 8), gridy |-> Range(2, 4, Seed, k, s + 9)]
Deform(k, s) == PickOf(<<"", "", "1/16", "-1/8">>, Seed, k, s)
AllNames == <<"u", "v", "w", "phix", "phiy", "exx", "eyy", "gxy", "kxx", "kyy", "kxy", "Nxx", "Nyy", "Nxy", "Mxx", "Myy", "Mxy">>
Names5 == <<"u", "v", "w", "phix", "phiy">>
\* Points of a grid, in any spacing.
GridPts(d, k, s) == LET p == Points(d, 2, Seed, k, s)
                        q == Points(d, 3, Seed, k, s + 20)
                    IN  [i \in 1..6 |-> << q[1 + ((i - 1) % 3)][1], p[1 + ((i - 1) \div 3)][2] >>]
OfShell(s, d, k, z) ==
  LET e0 == [s |-> s, what |-> "shell"] @@ Look(k, z)
      e1 == IF H(k, z + 20) % 3 = 0 THEN [e0 EXCEPT !.pts = GridPts(d, k, z + 30), !.shape = <<2, 3>>, !.gridx = 0, !.gridy = 0] ELSE e0
      e2 == [e1 EXCEPT !.deform = Deform(k, z + 21), !.off = PickOf(<< <<"0", "0">>, <<"1/2", "-3">>, <<"-7/4", "5/8">> >>, Seed, k, z + 22), !.NL = B(k, z + 23)]
  IN  [vec |-> PickOf(AllNames, Seed, k, z + 24)] @@ e2
ShellPlots(k) ==
  LET d == Def(Seed, k, 0, Lo, Hi)   c == Vec(Seed, k, 40, "1") IN
  << NewShell("s", d), FieldEv("uvw", "s", c, <<>>, <<>>, 3, 2, 0) >>
  \o (IF B(k, 41) THEN << FieldEv("strain", "s", c, <<>>, <<>>, 2, 2, 0) >> ELSE <<>>)
  \o << OfShell("s", d, k, 1000), OfShell("s", d, k, 1100), FieldEv(PickOf(<<"uvw", "stress">>, Seed, k, 42), "s", c, <<>>, <<>>, 3, 2, 0), OfShell("s", d, k, 1200) >>

AtPool == << <<"", "">>, <<"0", "0">>, <<"1/2", "-3">>, <<"", "7/4">>, <<"5", "">> >>
OfAsm(T, k, z) ==
  LET e0 == [A |-> "A", what |-> "asm", group |-> As!Grp(k, z + 20), gauss |-> FALSE, xg |-> <<>>, yg |-> <<>>, marks |-> B(k, z + 21),
             vec |-> PickOf(AllNames, Seed, k, z + 22)] @@ Look(k, z)
      inc(s) == LET r == 2 + (H(k, s) % 3) IN [i \in 1..r |-> <<"1/8", "3/8", "1/2", "11/16">>[i]]
  IN  IF H(k, z + 23) % 3 = 0 THEN [e0 EXCEPT !.gauss = TRUE, !.xg = inc(z + 24), !.yg = inc(z + 25)] ELSE e0
AsmPlots(k) ==
  LET T0 == As!Topo(k)
      T == [T0 EXCEPT !.defs = [i \in 1..Len(@) |-> [at |-> PickOf(AtPool, Seed, k, 50 + i)] @@ [@[i] EXCEPT !.group = IF i = 1 THEN "h" ELSE IF i = 2 THEN "g" ELSE @]]]
  IN  As!Shells(T) \o << Asm("A", As!Turn(T.names, H(k, 70)), ""), OfAsm(T, k, 1000), OfAsm(T, k, 1100),
         FieldOf("A", "uvw", Vec(Seed, k, 40, "1"), "g", 2, 3, FALSE), OfAsm(T, k, 1200) >>

OfBay(Y, si, k, z) ==
  LET D == IF si = 0 THEN Y ELSE [Y EXCEPT !.b = Y.stiffs[si].bf]
      e0 == [Y |-> "Y", what |-> "bay", si |-> si, vec |-> PickOf(Names5, Seed, k, z + 20)] @@ Look(k, z)
      e1 == IF H(k, z + 21) % 3 = 0 THEN [e0 EXCEPT !.pts = GridPts(D, k, z + 30), !.shape = <<2, 3>>, !.gridx = 0, !.gridy = 0] ELSE e0
  IN  [e1 EXCEPT !.deform = Deform(k, z + 22)]
BayPlots(k) ==
  LET Y == Bs!Bay(k)   pl == Bs!Plates(Y) IN
  << Bs!BayEv("Y", Y), Bs!BField("Y", 0, Vec(Seed, k, 950, "1"), <<>>, <<>>, 3, 2, 0), OfBay(Y, 0, k, 1000) >>
  \o [q \in 1..Len(pl) |-> OfBay(Y, pl[q], k, 1100 + 100 * q)]
  \o << Bs!BField("Y", 0, Vec(Seed, k, 951, "1"), <<>>, <<>>, 2, 2, 0), OfBay(Y, 0, k, 1500) >>
PlotCase(k) == CASE k % 3 = 0 -> ShellPlots(k) [] k % 3 = 1 -> AsmPlots(k) [] k % 3 = 2 -> BayPlots(k)
VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Out == PrintT(<<"CASE", ToJson([id |-> k, ev |-> PlotCase(k)])>>)
=============================================================================
