------------------------------ MODULE GenBuild ------------------------------
(***************************************************************************)
(* Behaviours over the ready-made assemblies: build one, ask for matrices  *)
(* of what was built, and look at the displacements and modes returned.    *)
(***************************************************************************)
EXTENDS Cases, Json
CONSTANTS Seed, Count, Prop, Hi

H(k, s) == Hash(Seed, k, s)
B(k, s) == Bool(Seed, k, s)
Fns == <<"cyl", "ts_comp", "cyl_lb", "bcyl_lb", "ts_flutter", "cyl_static", "bcyl", "ts_freq", "bcyl_static", "ts_comp", "cyl_spla", "ts_flutter">>
Fn(k) == Fns[1 + (k % Len(Fns))]
Stacks == << <<"0">>, <<"p345", "-45", "90">>, <<"45", "0">>, <<"0", "90", "0">>, <<"45", "-45", "-45", "45">>, <<"90", "-p512">> >>
Press == <<"-1", "-3/2", "-2", "-3/4", "-5/2">>
Cyl(k) ==
  LET fn == Fn(k)
      np == IF fn = "cyl_spla" THEN 2 + (H(k, 1) % 2) ELSE 2 + (H(k, 1) % 4)
  IN  [np |-> np, a |-> PickOf(LenPool, Seed, k, 2), r |-> PickOf(<<"1", "3/2", "1/2", "4">>, Seed, k, 3), stack |-> PickOf(Stacks, Seed, k, 4),
       plyt |-> PickOf(PlyPool, Seed, k, 5), prop |-> PickOf(PropPool, Seed, k, 6), m |-> Range(3, Hi, Seed, k, 7), n |-> Range(4, Hi, Seed, k, 8),
       Nxxs |-> [i \in 1..np |-> IF fn = "cyl_spla" THEN (IF (k \div 12) % 3 = 2 THEN "-1/100" ELSE "-1/1000") ELSE PickOf(Press, Seed, k, IF B(k, 9) THEN 10 ELSE 10 + i)], spla |-> IF (k \div 12) % 3 = 0 THEN "-1/1000" ELSE PickOf(<<"1/1000", "1/1000", "1/100">>, Seed, k, 12),
       stacks |-> [i \in 1..np |-> PickOf(Stacks, Seed, k, 20 + i)], widths |-> [i \in 1..np |-> PickOf(<<"1/4", "1/2", "3/8">>, Seed, k, 30 + i)],
       Nxxb |-> [i \in 1..np |-> PickOf(Press, Seed, k, 40 + i)], static |-> fn \in {"cyl_static", "bcyl_static"}, num |-> 6]
Tee(k) ==
  LET fn == Fn(k)
      b == PickOf(<<"1", "3/2", "2">>, Seed, k, 51)
      bb == PickOf(<<"1/4", "3/16", "1/2">>, Seed, k, 52)
      low == RAdd(RDiv(R(bb), 2), R("1/8"))      \* the base stays inside the panel
      ys == RAdd(low, RMul(R(<<PickOf(<<0, 4, 8, 11, 16>>, Seed, k, 53), 16>>), RSub(R(b), RMul(2, low))))
      none == B(k, 54)
      press(s) == PickOf(Press, Seed, k, s)
      noload == fn = "ts_flutter" /\ B(k, 55)
      own(s) == IF B(k, 56) THEN 0 ELSE Range(3, Hi, Seed, k, s)
      static == IF fn = "ts_freq" THEN FALSE ELSE noload \/ B(k, 57)
  IN  [a |-> PickOf(<<"3", "2", "5/2">>, Seed, k, 50), b |-> b, bb |-> bb, ys |-> RShow(ys), bf |-> PickOf(<<"1/4", "1/2">>, Seed, k, 58),
       defect |-> PickOf(<<"1/4", "0", "1/2", "1/8">>, Seed, k, 59), rho |-> PickOf(<<"3/2", "2", "1/2">>, Seed, k, 60), plyt |-> PickOf(PlyPool, Seed, k, 61),
       prop |-> PickOf(PropPool, Seed, k, 62), stack |-> PickOf(Stacks, Seed, k, 63), base |-> PickOf(Stacks, Seed, k, 64), flange |-> PickOf(Stacks, Seed, k, 65),
       r |-> IF none THEN "" ELSE PickOf(<<"4", "-3", "5/2">>, Seed, k, 66), m |-> Range(3, Hi, Seed, k, 67), n |-> Range(3, Hi, Seed, k, 68),
       mn |-> [i \in 1..4 |-> own(70 + i)], order |-> IF fn = "ts_comp" /\ B(k, 80) THEN <<16, 14, 15, 16, 14, 15>> ELSE <<0, 0, 0, 0, 0, 0>>,
       Nx |-> IF noload THEN <<"", "", "">> ELSE <<press(81), press(82), press(83)>>, static |-> static,
       V |-> PickOf(<<"1", "1/2", "3">>, Seed, k, 84), rho_air |-> PickOf(<<"1", "1/8", "1/50">>, Seed, k, 85), Mach |-> PickOf(<<"3/2", "2", "5/4", "5/3">>, Seed, k, 86),
       flow |-> PickOf(<<"x", "x", "y">>, Seed, k, 87), sound |-> "1", np |-> 0]
Params(k) == IF Fn(k) \in {"ts_comp", "ts_freq", "ts_flutter"} THEN Tee(k) ELSE Cyl(k)

Bld(k) == [op |-> "build", A |-> "A", fn |-> Fn(k), g |-> Params(k)]
\* Dense vectors and single functions.
Tests(k, s) == << Vec(Seed, k, s, "1"), UnitVec(H(k, s + 4) % 48), UnitVec(H(k, s + 5) % 48) >>
Md(k, i, s) == [op |-> "mode", A |-> "A", fn |-> Fn(k), g |-> Params(k), i |-> i, vecs |-> Tests(k, s)]
Dp(k) == [op |-> "disp", A |-> "A", fn |-> Fn(k), g |-> Params(k), twice |-> FALSE, vecs |-> Tests(k, 200) \o <<Vec(Seed, k, 210, "1")>>]
\* Requests that are rejected.
Wrong(k, q) == [op |-> "bad", what |-> "builder", call |-> Fn(k), form |-> q, g |-> Params(k), A |-> "A", args |-> <<>>]
WrongForms(fn) == CASE fn = "cyl" -> <<"one", "none", "ok">> [] fn = "bcyl" -> <<"one", "stacks", "widths", "ok">>
                    [] fn \in {"cyl_lb", "cyl_static"} -> <<"short", "long", "one">> [] fn \in {"bcyl_lb", "bcyl_static"} -> <<"short", "blade", "widths">>
                    [] OTHER -> <<>>
Trace(k) ==
  LET fn == Fn(k)
      bad == [i \in 1..Len(WrongForms(fn)) |-> Wrong(k, WrongForms(fn)[i])]
      do == CASE fn \in {"cyl", "bcyl"} -> <<SizeOfAsm("A"), [Ev("aKC", "A", NoVec, Tests(k, 220)) EXCEPT !.conn = "A"], Ev("aKM", "A", NoVec, Tests(k, 230))>>
              [] fn = "cyl_spla" -> <<Dp(k)>>
              [] Params(k).static /\ ~(fn = "ts_flutter" /\ Params(k).Nx[1] = "") -> <<Dp(k), Md(k, 0, 240), Md(k, 1, 250)>>
              [] OTHER -> <<Md(k, 0, 240), Md(k, 1, 250)>>
  IN  [id |-> Prop \o "-" \o fn \o "-" \o ToString(k), ev |-> IF Prop = "C20" THEN bad \o <<Bld(k)>> ELSE <<Bld(k)>> \o do]

VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Out == PrintT(<<"CASE", ToJson(Trace(k))>>)
=============================================================================
