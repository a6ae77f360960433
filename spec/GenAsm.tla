------------------------------- MODULE GenAsm -------------------------------
(***************************************************************************)
(* Behaviours over assemblies of joined domains.                           *)
(***************************************************************************)
EXTENDS Cases, Json
CONSTANTS Seed, Count, Prop, Lo, Hi

H(k, s) == Hash(Seed, k, s)
B(k, s) == Bool(Seed, k, s)
NumOf(d) == 3 * d.m * d.n

-----------------------------------------------------------------------------
(* Domains and connections. *)
Dom(k, i) ==
  LET d == Def(Seed, k, 2000 * i, Lo, Hi)
      d1 == [d EXCEPT !.group = PickOf(<<"g", "g", "g", "h", "h", "">>, Seed, k, 2000 * i + 500)]
  IN  \* order of integration exact for nonlinear states even with few terms
      [d1 EXCEPT !.nx = IF d1.m < 4 THEN 9 + (H(k, 2000 * i + 501) % 2) ELSE @, !.ny = IF d1.n < 4 THEN 9 ELSE @]
SameA(d, e) == [e EXCEPT !.a = d.a]
SameB(d, e) == [e EXCEPT !.b = d.b]
SameAB(d, e) == [e EXCEPT !.a = d.a, !.b = d.b]
Pos(k, s, len) == PickOf(<<"0", len, Frac(5, len), Frac(8, len)>>, Seed, k, s)

\* A record of domains (by name, in the order made) and connections.
Topo(k) ==
  LET d1 == Dom(k, 1)   d2 == Dom(k, 2)   d3 == Dom(k, 3)   d4 == Dom(k, 4) IN
  CASE k % 9 = 0 -> [names |-> <<"s", "t">>, defs |-> <<d1, SameB(d1, d2)>>,
                     conns |-> <<Joint("s", "t", "SSxcte", Pos(k, 1, d1.a), Pos(k, 2, d2.a))>>]
    [] k % 9 = 1 -> [names |-> <<"s", "t">>, defs |-> <<d1, SameA(d1, d2)>>,
                     conns |-> <<Joint("s", "t", "SSycte", Pos(k, 1, d1.b), Pos(k, 2, d2.b))>>]
    [] k % 9 = 2 -> [names |-> <<"s", "t">>, defs |-> <<d1, SameAB(d1, d2)>>,
                     conns |-> <<Joint("s", "t", PickOf(<<"SB", "SB", "SB_TSL">>, Seed, k, 3), "", "")>>]
    [] k % 9 = 3 -> [names |-> <<"s", "t">>, defs |-> <<d1, SameA(d1, d2)>>,
                     conns |-> <<Joint("s", "t", "BFycte", Pos(k, 1, d1.b), Pos(k, 2, d2.b))>>]
    [] k % 9 = 4 -> [names |-> <<"s", "t">>, defs |-> <<d1, SameB(d1, d2)>>,
                     conns |-> <<Joint("s", "t", "BFxcte", Pos(k, 1, d1.a), Pos(k, 2, d2.a))>>]
    [] k % 9 = 5 -> \* skin panel, base on it, flange on the base
                    LET b == SameAB(d1, d2)   f == SameA(d1, d3) IN
                    [names |-> <<"s", "t", "r">>, defs |-> <<d1, b, f>>,
                     conns |-> <<Joint("s", "t", "SB", "", ""), Joint("t", "r", "BFycte", Pos(k, 1, b.b), "0")>>]
    [] k % 9 = 6 -> \* four panels in two rows, every pair of neighbours
                    LET d2_ == SameB(d1, d2)   d3_ == SameA(d1, d3)   d4_ == [d4 EXCEPT !.a = d2_.a, !.b = d3_.b] IN
                    [names |-> <<"s", "t", "r", "q">>, defs |-> <<d1, d2_, d3_, d4_>>,
                     conns |-> <<Joint("s", "t", "SSxcte", "0", d2_.a), Joint("s", "r", "SSycte", "0", d3_.b), Joint("t", "q", "SSycte", "0", d4_.b),
                                 Joint("q", "r", "SSxcte", d4_.a, "0")>>]
    [] k % 9 = 7 -> \* closed: a panel joined to itself, and a second one on it
                    [names |-> <<"s", "t">>, defs |-> <<d1, SameA(d1, d2)>>,
                     conns |-> <<Joint("s", "s", "SSycte", "0", d1.b), Joint("t", "s", "BFycte", "0", Pos(k, 1, d1.b))>>]
    [] k % 9 = 8 -> \* a ring of three, and two connections between the same pair
                    LET d2_ == SameA(d1, d2)   d3_ == SameA(d1, d3) IN
                    [names |-> <<"s", "t", "r">>, defs |-> <<d1, d2_, d3_>>,
                     conns |-> <<Joint("s", "t", "SSycte", d1.b, "0"), Joint("t", "r", "SSycte", d2_.b, "0"), Joint("s", "r", "SSycte", "0", d3_.b),
                                 Joint("r", "s", "SSycte", Frac(5, d3_.b), Frac(11, d1.b))>>]

Shells(T) == [i \in 1..Len(T.names) |-> NewShell(T.names[i], T.defs[i])]
\* Rotations and reversals of a sequence.
Turn(s, q) == LET n == Len(s)
                  r == [i \in 1..n |-> s[1 + ((i - 1 + q) % n)]]
              IN  IF q % 2 = 0 THEN r ELSE [i \in 1..n |-> r[n + 1 - i]]
RECURSIVE SumLen(_, _)
SumLen(defs, i) == IF i = 0 THEN 0 ELSE NumOf(defs[i]) + SumLen(defs, i - 1)
Total(T) == SumLen(T.defs, Len(T.defs))

-----------------------------------------------------------------------------
(* C14: assembled matrices and vectors. *)
C14(k) ==
  LET T0 == Topo(k)
      n == Len(T0.names)
      T == [T0 EXCEPT !.defs = [i \in 1..n |-> [@[i] EXCEPT
              !.N = IF B(k, 30 + i) THEN [q \in 1..3 |-> PickOf(NPool, Seed, k, 3000 + 10 * i + q)] ELSE @,
              !.Nc = IF H(k, 40 + i) % 4 = 0 THEN [q \in 1..3 |-> PickOf(NPool, Seed, k, 3100 + 10 * i + q)] ELSE @,
              !.loads = [q \in 1..(H(k, 50 + i) % 3) |-> Load(T0.defs[i], IF B(k, 60 + i) THEN "load" ELSE "pd", Seed, k, 3200 + 100 * i + 10 * q)]]]]
      names == Turn(T.names, H(k, 70))
      v == Vecs(Seed, k, 900, Total(T))
      c == Vec(Seed, k, 950, PickOf(<<"1/4", "1/8">>, Seed, k, 951))
      w(e, s) == [e EXCEPT !.fin = H(k, s) % 3 # 0, !.NL = B(k, s + 10)]
      calls == << w(Ev("aKC", "A", IF B(k, 71) THEN c ELSE NoVec, v), 80), w(Ev("aKG", "A", IF B(k, 72) THEN c ELSE NoVec, v), 81), w(Ev("aKM", "A", NoVec, v), 82),
                  w(Ev("aKT", "A", IF B(k, 74) THEN c ELSE NoVec, v), 83), Ev("aFint", "A", c, v), ExtEv("A", PickOf(Incs, Seed, k, 73), v) >>
  IN  Shells(T) \o << Conns("K", T.conns), Asm("A", names, "K"), SizeOfAsm("A") >>
      \o Turn(SubSeq(Turn(calls, H(k, 75) % 6), 1, 3), H(k, 76))

\* C15: connection matrices; the same connections in another order, over domains given in another order, some swapped.
C15(k) ==
  LET T == Topo(k)
      v == Vecs(Seed, k, 900, Total(T))
      q == Len(T.conns)
      swap(cn) == [cn EXCEPT !.p1 = cn.p2, !.p2 = cn.p1, !.c1 = cn.c2, !.c2 = cn.c1]
      \* swapping the two domains describes the same connection only for skin-skin joints
      other == [i \in 1..q |-> IF T.conns[i].func \in {"SSxcte", "SSycte"} /\ B(k, 20 + i) THEN swap(T.conns[i]) ELSE T.conns[i]]
      more == Append(other, PickOf(other, Seed, k, 25))
      kind == PickOf(<<"xcte", "ycte", "bot-top", "xcte-ycte", "ycte-xcte">>, Seed, k, 26)
      e(A, fin) == [Ev("aConn", A, NoVec, v) EXCEPT !.fin = fin]
  IN  Shells(T) \o
      << Conns("K", T.conns), Asm("A", T.names, "K"), e("A", TRUE),
         [op |-> "penalty", s |-> T.names[1], s2 |-> T.names[2], kind |-> kind], [op |-> "penalty", s |-> T.names[2], s2 |-> T.names[1], kind |-> kind],
         Conns("L", Turn(other, H(k, 27))), Asm("B", Turn(T.names, H(k, 28)), IF B(k, 29) THEN "" ELSE "K"), [e("B", B(k, 31)) EXCEPT !.conn = "L"],
         Conns("M", more), [e("B", TRUE) EXCEPT !.conn = "M"] >>

\* C04, C05: fields of the domains of a group.
Grp(k, s) == PickOf(<<"g", "g", "h">>, Seed, k, s)
\* Fractions that lie inside the smallest domain.
Samples(k, s) == [i \in 1..(1 + (H(k, s) % 4)) |-> PickOf(<<"0", "1/8", "3/8", "1/2", "5/8", "11/16", "3/4">>, Seed, k, s + i)]
Few(k, s) == SubSeq(Samples(k, s), 1, 1)
Fields(k, what(_)) ==
  LET T == Topo(k)
      names == Turn(T.names, H(k, 70))
      c == Vec(Seed, k, 950, "1")
      c2 == UnitVec(H(k, 955) % Total(T))
  IN  Shells(T) \o << Asm("A", names, ""),
         [FieldOf("A", what(1), c, Grp(k, 80), Range(1, 4, Seed, k, 81), Range(1, 4, Seed, k, 82), B(k, 83)) EXCEPT !.cores = PickOf(<<1, 3, 4, 8>>, Seed, k, 84)],
         \* one of the two left out (50 positions over each domain), or both given
         CASE H(k, 87) % 3 = 0 -> GaussOf("A", what(2), c, Grp(k, 85), Few(k, 600), <<>>, B(k, 86))
           [] H(k, 87) % 3 = 1 -> GaussOf("A", what(2), c, Grp(k, 85), <<>>, Few(k, 600), B(k, 86))
           [] OTHER -> GaussOf("A", what(2), c2, Grp(k, 85), Samples(k, 600), Samples(k, 620), B(k, 86)),
         GaussOf("A", what(4), c, "g", IF B(k, 88) THEN <<>> ELSE Samples(k, 680), IF B(k, 88) THEN Few(k, 690) ELSE Samples(k, 690), B(k, 89)),
         FieldOf("A", what(3), c2, "g", 3, 2, FALSE) >>
PlotsOf(k, T, names) ==
  << PlotOf("A", PickOf(names, Seed, k, 90), Vec(Seed, k, 960, "1"), "g", 3, 4),
     [PlotOf("A", PickOf(names, Seed, k, 91), Vec(Seed, k, 963, "1"), "g", 0, 0) EXCEPT !.gauss = TRUE, !.xg = Samples(k, 640), !.yg = Samples(k, 660)] >>
C04(k) ==
  LET T == Topo(k) IN
  Fields(k, LAMBDA i : "uvw")
  \o (IF \E i \in 1..Len(T.names) : T.defs[i].group = "g"
      THEN PlotsOf(k, T, NamesUVW) ELSE <<>>)
C05(k) ==
  LET T == Topo(k) IN
  Fields(k, LAMBDA i : IF B(k, 700 + i) THEN "strain" ELSE "stress")
  \o (IF \E i \in 1..Len(T.names) : T.defs[i].group = "g" THEN PlotsOf(k, T, NamesE \o NamesN) ELSE <<>>)

\* C11: penalty stiffness of prescribed displacements.
C11(k) ==
  LET d == Def(Seed, k, 0, Lo, Hi)
      v == Vecs(Seed, k, 900, NumOf(d))
      pt == Point(d, Seed, k, 940)
      off == PickOf(<<0, 3, 7>>, Seed, k, 941)
      e(kind, s) == [op |-> "kPd", s |-> "s", kind |-> kind, x |-> pt[1], y |-> pt[2],
                     ks |-> [i \in 1..3 |-> PickOf(<<"10", "3", "25/2", "0">>, Seed, k, s + i)], pad |-> off + PickOf(<<0, 5>>, Seed, k, s + 5),
                     row0 |-> off, col0 |-> off, vecs |-> v]
  IN  << NewShell("s", d), e("point", 10), e("linex", 20), e("liney", 30) >>
      \o [i \in 1..3 |-> [op |-> "pdk", s |-> "s", kind |-> <<"point", "linex", "liney">>[i]]]

\* C09: tangent and internal force of assemblies.
C09(k) ==
  LET T == Topo(k)
      v == Vecs(Seed, k, 900, Total(T))
      c == Vec(Seed, k, 950, PickOf(<<"1/4", "1/8">>, Seed, k, 951))
  IN  Shells(T) \o << Conns("K", T.conns), Asm("A", Turn(T.names, H(k, 70)), "K"), Ev("aFint", "A", c, v), Ev("aKT", "A", c, v) >>

\* C06, C07, C08, C10: the same assembly asked the same thing in several ways.
Loaded(k, T0) ==
  [T0 EXCEPT !.defs = [i \in 1..Len(T0.names) |-> [@[i] EXCEPT
     !.N = IF B(k, 30 + i) THEN [q \in 1..3 |-> PickOf(NPool, Seed, k, 3000 + 10 * i + q)] ELSE @,
     !.loads = [q \in 1..(H(k, 50 + i) % 4) |-> Load(T0.defs[i], IF B(k, 60 + 10 * i + q) THEN "load" ELSE "pd", Seed, k, 3200 + 100 * i + 10 * q)]]]]
Only(k, op) ==
  LET T == Loaded(k, Topo(k))
      v == Vecs(Seed, k, 900, Total(T))
      c == Vec(Seed, k, 950, PickOf(<<"1/4", "1/8">>, Seed, k, 951))
  IN  Shells(T) \o << Conns("K", T.conns), Asm("A", Turn(T.names, H(k, 70)), "K") >>
      \o CASE op = "aKC" -> << Ev("aKC", "A", NoVec, v), [Ev("aKC", "A", c, v) EXCEPT !.NL = B(k, 84)] >>
           [] op = "aKG" -> << [Ev("aKG", "A", c, v) EXCEPT !.NL = B(k, 84)], Ev("aKG", "A", NoVec, v) >>
           [] op = "aKM" -> << Ev("aKM", "A", NoVec, v) >>
           [] op = "aFext" -> << ExtEv("A", PickOf(Incs, Seed, k, 73), v), ExtEv("A", "1/2", v), ExtEv("A", "", v),
                                LoadEv(PickOf(T.names, Seed, k, 77), Load(T.defs[1], PickOf(<<"load", "pd">>, Seed, k, 78), Seed, k, 3900)),
                                ExtEv("A", PickOf(Incs, Seed, k, 79), v) >>

Case(k) == CASE Prop = "C06" -> Only(k, "aKC") [] Prop = "C07" -> Only(k, "aKG") [] Prop = "C08" -> Only(k, "aKM") [] Prop = "C10" -> Only(k, "aFext")
             [] Prop = "C14" -> C14(k) [] Prop = "C15" -> C15(k) [] Prop = "C04" -> C04(k) [] Prop = "C05" -> C05(k) [] Prop = "C11" -> C11(k)
             [] Prop = "C09" -> C09(k)
VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Out == PrintT(<<"CASE", ToJson([id |-> k, ev |-> Case(k)])>>)
=============================================================================
