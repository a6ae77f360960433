------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* The inputs that are tried: definitions, vectors, points, loads, chosen  *)
(* from pools by a hash of <<seed, case, salt>>.                           *)
(***************************************************************************)
EXTENDS Base

Bool(seed, k, s) == Hash(seed, k, s) % 2 = 0
LenPool == <<"1", "5/4", "3/2", "2", "3/4", "3", "1/2">>
RadiusPool == <<"3/2", "2", "4", "5/2", "-2", "-7/2", "40">>
\* load factors; "" is the default
Incs == <<"", "1", "0", "1/4", "2", "-3/4", "7/2", "-1">>
PropPool == << <<"10", "4", "1/4", "3", "2", "1">>, <<"8", "6", "3/10", "2", "1", "1">>, <<"7", "3/10">>,
               <<"12", "1", "2/5", "3/2", "3/2", "1/2">> >>
PlyPool == <<"1/8", "1/10", "1/20", "1/16">>
StackPool == << <<"0">>, <<"p345", "-45", "90">>, <<"45", "0">>, <<"p512", "q345", "0", "-p345">>, <<"0", "90", "0">>,
                <<"45", "-45", "-45", "45">>, <<"90", "-p512">> >>
OffPool == <<"0", "1/16", "-1/10", "1/5", "-3/4">>
RhoPool == <<"3/2", "2", "1/2", "0">>
BCPool == <<"0", "1", "1", "1/2", "-3/4", "2", "1/5">>
ZeroOne == <<"0", "1">>
NPool == <<"3/2", "-2", "1/4", "5", "0">>

Default == <<"0", "1", "0", "1">>
Free == <<"1", "1", "1", "1">>
Clamped == <<"0", "0", "0", "0">>
Flags(seed, k, s) ==
  LET mode == Hash(seed, k, s) % 5 IN
  [q \in 1..6 |-> CASE mode = 0 -> Default
                    [] mode = 1 -> Free
                    [] mode = 2 -> [i \in 1..4 |-> PickOf(ZeroOne, seed, k, s + 10 * q + i)]
                    [] OTHER -> [i \in 1..4 |-> PickOf(BCPool, seed, k, s + 10 * q + i)]]

\* The defaults of a new shell.
BlankDef == [a |-> "1", b |-> "1", r |-> "", m |-> 4, n |-> 4, nx |-> 0, ny |-> 0, stack |-> <<"0">>, plyt |-> "1/8", plyts |-> <<>>,
             prop |-> PropPool[1], props |-> <<>>, rho |-> "1", rhos |-> <<>>, offset |-> "0", ortho |-> FALSE,
             fl |-> [q \in 1..6 |-> Default], sub |-> <<"", "", "", "">>, N |-> <<"0", "0", "0">>, Nc |-> <<"0", "0", "0">>,
             flow |-> "x", beta |-> "", gamma |-> "", rho_air |-> "", V |-> "", Mach |-> "", group |-> "", loads |-> <<>>]

\* A laminate with each ply its own thickness, material and density.
MixedLam(seed, k, s) ==
  LET st == PickOf(StackPool, seed, k, s)
      n == Len(st)
  IN  [stack |-> st, plyts |-> [i \in 1..n |-> PickOf(PlyPool, seed, k, s + i)], props |-> [i \in 1..n |-> PickOf(PropPool, seed, k, s + 20 + i)],
       rhos |-> [i \in 1..n |-> PickOf(RhoPool, seed, k, s + 40 + i)], off |-> PickOf(OffPool, seed, k, s + 60), ortho |-> FALSE]
\* Terms along x and y: lo..hi, and sometimes many along one side and few along the other.
ThinPool == << <<2, 7>>, <<7, 2>>, <<6, 2>>, <<2, 6>>, <<5, 2>>, <<2, 5>>, <<1, 6>>, <<6, 1>> >>
LongPool == << <<30, 1>>, <<1, 30>>, <<2, 24>>, <<17, 2>>, <<3, 14>>, <<12, 3>> >>
Terms(seed, k, s, lo, hi) ==
  IF hi > 9 /\ Hash(seed, k, s + 1) % 4 = 0 THEN PickOf(LongPool, seed, k, s + 2) ELSE
  IF hi > 4 /\ Hash(seed, k, s) % 7 = 0 THEN PickOf(ThinPool, seed, k, s + 1) ELSE <<Range(lo, hi, seed, k, s + 2), Range(lo, hi, seed, k, s + 3)>>
\* Random definition; lo..hi terms.
Def(seed, k, s, lo, hi) ==
  LET mn == Terms(seed, k, s + 93, lo, hi)
      st == PickOf(StackPool, seed, k, s + 1)
      n == Len(st)
      mixed == Hash(seed, k, s + 2) % 3
  IN  [BlankDef EXCEPT
        !.a = PickOf(LenPool, seed, k, s + 3), !.b = PickOf(LenPool, seed, k, s + 4),
        !.r = IF Bool(seed, k, s + 5) THEN "" ELSE PickOf(RadiusPool, seed, k, s + 6),
        !.m = mn[1], !.n = mn[2],
        !.stack = st, !.plyt = PickOf(PlyPool, seed, k, s + 9), !.prop = PickOf(PropPool, seed, k, s + 10),
        !.plyts = IF mixed = 1 THEN [i \in 1..n |-> PickOf(PlyPool, seed, k, s + 100 + i)] ELSE <<>>,
        !.props = IF mixed = 1 THEN [i \in 1..n |-> PickOf(PropPool, seed, k, s + 120 + i)] ELSE <<>>,
        !.rho = PickOf(RhoPool, seed, k, s + 11),
        !.rhos = IF mixed = 1 THEN [i \in 1..n |-> PickOf(RhoPool, seed, k, s + 140 + i)] ELSE <<>>,
        !.offset = PickOf(OffPool, seed, k, s + 12), !.ortho = Hash(seed, k, s + 13) % 5 = 0,
        !.fl = Flags(seed, k, s + 14)]

Vec(seed, k, s, scale) ==
  [k |-> "lcg", p |-> <<Range(1, 997, seed, k, s), Range(0, 997, seed, k, s + 1), Range(0, 1008, seed, k, s + 2)>>, s |-> scale]
NoVec == [k |-> "none", p |-> <<>>, s |-> "0"]
ZeroVec == [k |-> "zero", p |-> <<>>, s |-> "0"]
UnitVec(i) == [k |-> "unit", p |-> <<i>>, s |-> "1"]
\* Two dense vectors and one unit vector.
Vecs(seed, k, s, n) == << Vec(seed, k, s, "1"), Vec(seed, k, s + 3, "1"), UnitVec(Hash(seed, k, s + 6) % n) >>

\* A point in [0, a] x [0, b]: fractions of the sides in sixteenths, edges and corners included.
Frac(q, len) == RShow(RMul(R(<<q, 16>>), R(len)))
Point(d, seed, k, s) == <<Frac(Hash(seed, k, s) % 17, d.a), Frac(Hash(seed, k, s + 1) % 17, d.b)>>
Points(d, n, seed, k, s) ==
  [i \in 1..n |-> IF i = 1 THEN PickOf(<< <<"0", "0">>, <<d.a, d.b>>, <<"0", d.b>>, <<d.a, "0">> >>, seed, k, s)
                  ELSE IF i = 2 THEN <<PickOf(<<"0", d.a>>, seed, k, s + 1), Point(d, seed, k, s + 2)[2]>>
                  ELSE IF i = 3 THEN <<Point(d, seed, k, s + 3)[1], PickOf(<<"0", d.b>>, seed, k, s + 4)>>
                  ELSE Point(d, seed, k, s + 3 * i)]

\* Weights at integration points: polynomials that stay positive on [-1, 1]^2.
WeightPool == << << <<"1", "1/4">>, <<"1/4", "0">> >>, << <<"3/2", "-1/4">>, <<"0", "1/8">>, <<"1/4", "0">> >>, << <<"1", "0", "1/2">> >>,
                 << <<"2">> >>, << <<"1">>, <<"-1/2">> >> >>
Varied(seed, k, s) ==
  IF Bool(seed, k, s) THEN << [w |-> PickOf(WeightPool, seed, k, s + 1), lam |-> MixedLam(seed, k, s + 200)] >>
  ELSE << [w |-> PickOf(WeightPool, seed, k, s + 1), lam |-> MixedLam(seed, k, s + 200)],
          [w |-> PickOf(WeightPool, seed, k, s + 2), lam |-> MixedLam(seed, k, s + 300)] >>

\* Parts of the domain.
SubPool(len) == << <<"0", Frac(5, len)>>, <<Frac(5, len), len>>, <<Frac(3, len), Frac(11, len)>>, <<Frac(11, len), Frac(13, len)>> >>
Sub(d, seed, k, s) ==
  LET x == PickOf(SubPool(d.a), seed, k, s)
      y == PickOf(SubPool(d.b), seed, k, s + 1)
      mode == Hash(seed, k, s + 2) % 3
  IN  IF mode = 0 THEN <<x[1], x[2], "", "">> ELSE IF mode = 1 THEN <<"", "", y[1], y[2]>> ELSE <<x[1], x[2], y[1], y[2]>>

\* All of these parts, by number.
NSub == 24
SubAt(d, i) ==
  LET x == SubPool(d.a)   y == SubPool(d.b) IN
  CASE i % NSub < 4 -> <<x[1 + (i % NSub)][1], x[1 + (i % NSub)][2], "", "">>
    [] i % NSub \in 4..7 -> <<"", "", y[(i % NSub) - 3][1], y[(i % NSub) - 3][2]>>
    [] OTHER -> LET j == (i % NSub) - 8   p == x[1 + (j % 4)]   q == y[1 + (j \div 4)] IN <<p[1], p[2], q[1], q[2]>>

\* Loads.
ForcePool == <<"1", "-3/2", "5/4", "0", "1/2">>
LinePool == << <<>>, <<"1">>, <<"1/2", "-1">>, <<"0", "1/4", "1">>, <<"-2">> >>
PenPool == <<"10", "3", "25/2">>
\* penalty constants of a point constraint; the last ones are the defaults
PointPen == <<"10", "3", "25/2", "1000000">>
PointPenRot == <<"10", "3", "25/2", "100000">>
Load(d, via, seed, k, s) ==
  LET kind == PickOf(<<"point", "linex", "liney">>, seed, k, s)
      pt == Point(d, seed, k, s + 1)
      line == [i \in 1..3 |-> PickOf(LinePool, seed, k, s + 3 + i)]
  IN  [kind |-> kind, via |-> via, cte |-> Bool(seed, k, s + 20),
       x |-> IF kind = "liney" THEN "" ELSE pt[1], y |-> IF kind = "linex" THEN "" ELSE pt[2],
       pk |-> IF via = "pd" THEN [i \in 1..3 |-> PickOf(PenPool, seed, k, s + 10 + i)] ELSE <<"1", "1", "1">>,
       f |-> IF kind = "point" THEN [i \in 1..3 |-> PickOf(ForcePool, seed, k, s + 3 + i)]
             ELSE IF \A i \in 1..3 : line[i] = <<>> THEN <<<<>>, <<>>, <<"1", "1/2">>>> ELSE line]

-----------------------------------------------------------------------------
(* Events. *)
NewShell(s, d) == [op |-> "shell", s |-> s, def |-> d]
SetEv(s, attr, val) == [op |-> "set", s |-> s, attr |-> attr, val |-> val]
LoadEv(s, ld) == [op |-> "load", s |-> s, ld |-> ld]
SizeEv(s) == [op |-> "size", s |-> s]
\* where the result goes: "none" (own size), "int" or "str" (larger by pad, starting at place)
Own == [size |-> "none", pad |-> 0, row0 |-> 0, col0 |-> 0, fin |-> TRUE]
Place(seed, k, s) ==
  LET mode == PickOf(<<"none", "int", "str">>, seed, k, s)
      off == IF mode = "none" THEN 0 ELSE PickOf(<<0, 3, 7>>, seed, k, s + 1)
  IN  [size |-> mode, pad |-> IF mode = "none" THEN 0 ELSE off + PickOf(<<0, 2, 5>>, seed, k, s + 2), row0 |-> off, col0 |-> off,
       fin |-> Hash(seed, k, s + 3) % 4 # 0]
NoOrder == [nx |-> 0, ny |-> 0]
Order(p, q) == [nx |-> p, ny |-> q]
KC(s, pl, od, c, cc, var, nl, vecs) == pl @@ od @@ [op |-> "kC", s |-> s, c |-> c, cc |-> cc, var |-> var, NL |-> nl, vecs |-> vecs]
KG(s, pl, od, c, var, nl, vecs) == pl @@ od @@ [op |-> "kG", s |-> s, c |-> c, var |-> var, NL |-> nl, vecs |-> vecs]
KT(s, pl, od, c, var, vecs) == pl @@ od @@ [op |-> "kT", s |-> s, c |-> c, var |-> var, vecs |-> vecs]
KM(s, pl, od, h, rho, vecs) == pl @@ od @@ [op |-> "kM", s |-> s, h |-> h, rho |-> rho, vecs |-> vecs]
KA(s, pl, vecs) == pl @@ [op |-> "kA", s |-> s, vecs |-> vecs]
CA(s, pl, mu, vecs) == [pl EXCEPT !.row0 = 0, !.col0 = 0] @@ [op |-> "cA", s |-> s, aeromu |-> mu, vecs |-> vecs]
FINT(s, pl, od, c, var, vecs) == pl @@ od @@ [op |-> "fint", s |-> s, c |-> c, var |-> var, vecs |-> vecs, strict |-> FALSE]
FEXT(s, pl, inc, vecs) == pl @@ [op |-> "fext", s |-> s, inc |-> inc, vecs |-> vecs]
KPC(s, x, y, on, kuvw, kphi, vecs) == [op |-> "kPC", s |-> s, x |-> x, y |-> y, on |-> on, kuvw |-> kuvw, kphi |-> kphi, vecs |-> vecs]
FieldEv(op, s, c, pts, shape, gx, gy, cores) ==
  [op |-> op, s |-> s, c |-> c, pts |-> pts, shape |-> shape, gridx |-> gx, gridy |-> gy, cores |-> cores, NL |-> FALSE, var |-> <<>>]
\* Joints and assemblies.
Joint(p1, p2, func, c1, c2) == [p1 |-> p1, p2 |-> p2, func |-> func, c1 |-> c1, c2 |-> c2, tsl |-> "linear"]
Conns(K, list) == [op |-> "conns", k |-> K, list |-> list]
Asm(A, names, conn) == [op |-> "asm", A |-> A, panels |-> names, conn |-> conn]
Ev(op, A, c, vecs) == [op |-> op, A |-> A, conn |-> "", c |-> c, vecs |-> vecs, fin |-> TRUE, NL |-> FALSE]
ExtEv(A, inc, vecs) == [op |-> "aFext", A |-> A, conn |-> "", c |-> NoVec, inc |-> inc, vecs |-> vecs]
SizeOfAsm(A) == [op |-> "aSize", A |-> A]
FieldOf(A, what, c, g, gx, gy, nl) ==
  [op |-> "aField", A |-> A, what |-> what, group |-> g, c |-> c, gauss |-> FALSE, gridx |-> gx, gridy |-> gy, xg |-> <<>>, yg |-> <<>>, NL |-> nl,
   cores |-> 0]
GaussOf(A, what, c, g, xg, yg, nl) == [FieldOf(A, what, c, g, 0, 0, nl) EXCEPT !.gauss = TRUE, !.xg = xg, !.yg = yg]
PlotOf(A, vec, c, g, gx, gy) ==
  [op |-> "aPlot", A |-> A, vec |-> vec, group |-> g, c |-> c, gauss |-> FALSE, gridx |-> gx, gridy |-> gy, xg |-> <<>>, yg |-> <<>>]
=============================================================================
