------------------------------ MODULE GenHist ------------------------------
(***************************************************************************)
(* Histories: the state of the system as the specification sees it, and    *)
(* every interleaving of definitions, calculations and ill-posed requests  *)
(* up to a depth ("pairs"), or one long walk per case ("walk").  The       *)
(* variable hist is the behaviour so far; it is printed when it is full.   *)
(***************************************************************************)
EXTENDS Cases, Panels, Json
CONSTANTS Seed, Prop, Mode, Count, Depth, Keep_

VARIABLES k, hist, st, full, tag

H(s) == Hash(Seed, k, s)
Salt == 1000 + 97 * Len(hist)
Amp(s) == PickOf(<<"1/4", "1/8", "1/2">>, Seed, k, s)
V2(s, n) == << Vec(Seed, k, s, "1"), Vec(Seed, k, s + 3, "1") >>

-----------------------------------------------------------------------------
(* One shell.  Nine integration points are exact for everything asked here. *)
Base_(s) ==
  LET d == Def(Seed, k, s, 2, 4) IN
  [d EXCEPT !.nx = 9, !.ny = 9,
            !.N = IF H(s + 700) % 2 = 0 THEN [i \in 1..3 |-> PickOf(NPool, Seed, k, s + 700 + i)] ELSE @,
            !.loads = [i \in 1..(H(s + 710) % 3) |-> Load(d, IF H(s + 710 + i) % 2 = 0 THEN "load" ELSE "pd", Seed, k, s + 720 + 20 * i)],
            !.rho_air = "3/2", !.V = "2", !.Mach = PickOf(<<"5/4", "5/3">>, Seed, k, s + 711),
            !.beta = IF H(s + 712) % 2 = 0 THEN "" ELSE "2"]

NCalc == 22
CalcOf(q, s, D, x) ==
  LET n == Num(D)
      v == V2(x, n)
      c == Vec(Seed, k, x + 10, Amp(x + 13))
      pt == Point(D, Seed, k, x + 14)
      lam == << [w |-> <<<<"1">>>>, lam |-> MixedLam(Seed, k, x + 20)] >>
  IN  CASE q = 1 -> KC(s, Own, NoOrder, NoVec, NoVec, <<>>, FALSE, v)
        [] q = 2 -> KC(s, Own, NoOrder, c, NoVec, <<>>, TRUE, v)
        [] q = 3 -> KC(s, Own, NoOrder, NoVec, c, <<>>, FALSE, v)
        [] q = 4 -> KC(s, Place(Seed, k, x + 16), NoOrder, NoVec, NoVec, <<>>, FALSE, v)
        [] q = 5 -> KC(s, Own, NoOrder, c, NoVec, Varied(Seed, k, x + 20), FALSE, v)
        [] q = 6 -> KG(s, Own, NoOrder, NoVec, <<>>, FALSE, v)
        [] q = 7 -> KG(s, Own, NoOrder, c, <<>>, H(x + 17) % 2 = 0, v)
        [] q = 8 -> KT(s, Own, NoOrder, c, <<>>, v)
        [] q = 9 -> KM(s, Own, NoOrder, <<>>, <<>>, v)
        [] q = 10 -> KM(s, Own, NoOrder, << <<"1/4", "1/16">>, <<"1/32", "0">> >>, <<>>, v)
        [] q = 11 -> KA(s, Own, v)
        [] q = 12 -> CA(s, Own, "3/2", v)
        [] q = 13 -> FINT(s, Own, NoOrder, c, <<>>, v)
        [] q = 14 -> FINT(s, Own, NoOrder, c, Varied(Seed, k, x + 20), v)
        [] q = 15 -> FEXT(s, Own, PickOf(Incs, Seed, k, x + 18), v)
        [] q = 16 -> FieldEv("uvw", s, c, <<>>, <<>>, 3, 2, 0)
        [] q = 17 -> FieldEv("strain", s, c, <<>>, <<>>, 2, 3, 0)
        [] q = 18 -> [FieldEv("stress", s, c, Points(D, 3, Seed, k, x + 30), <<3>>, 0, 0, 0) EXCEPT !.NL = TRUE]
        [] q = 19 -> [FieldEv("stress", s, c, Points(D, 2, Seed, k, x + 30), <<2>>, 0, 0, 0) EXCEPT !.var = lam]
        [] q = 20 -> SizeEv(s)
        [] q = 21 -> KPC(s, pt[1], pt[2], <<TRUE, FALSE, TRUE, TRUE, FALSE>>, "10", "3", v)
        [] q = 22 -> [op |-> "kPd", s |-> s, kind |-> "linex", x |-> pt[1], y |-> "", ks |-> <<"10", "3", "25/2">>, pad |-> 0, row0 |-> 0, col0 |-> 0, vecs |-> v]

\* Changes of the definition; <<>> where one does not apply to the present definition.
Other(pool, now, x) == LET p == SelectSeq(pool, LAMBDA t : t # now) IN PickOf(p, Seed, k, x)
SameLen(n) == SelectSeq(StackPool, LAMBDA t : Len(t) = n)
Longer(len) == IF RLe(R("5/2"), R(len)) THEN len ELSE RShow(RAdd(R(len), Half))
NSet == 31
SetOf(q, s, D, x) ==
  LET n == Len(D.stack)
      set(a, v) == << SetEv(s, a, v) >>
      free == D.plyts = <<>> /\ D.props = <<>> /\ D.rhos = <<>>
  IN  CASE q = 1 -> set("r", Other(<<"", "3/2", "2", "4", "-2", "-7/2">>, D.r, x))
        [] q = 2 -> IF \A t \in {StackPool[i] : i \in 1..Len(StackPool)} : Len(t) = n => t = D.stack
                    THEN set("stack", [i \in 1..n |-> Other(<<"0", "90", "45", "p345">>, D.stack[i], x + i)])
                    ELSE set("stack", Other(SameLen(n), D.stack, x))
        [] q = 3 -> IF free THEN set("stack", Other(SelectSeq(StackPool, LAMBDA t : Len(t) # n), D.stack, x)) ELSE <<>>
        [] q = 4 -> set("plyt", Other(PlyPool, D.plyt, x))
        [] q = 5 -> set("prop", Other(PropPool, D.prop, x))
        [] q = 6 -> set("plyts", IF D.plyts = <<>> \/ H(x) % 2 = 0 THEN [i \in 1..n |-> PickOf(PlyPool, Seed, k, x + i)] ELSE <<>>)
        [] q = 7 -> set("props", IF D.props = <<>> \/ H(x) % 2 = 0 THEN [i \in 1..n |-> PickOf(PropPool, Seed, k, x + i)] ELSE <<>>)
        [] q = 8 -> set("rhos", IF D.rhos = <<>> \/ H(x) % 2 = 0 THEN [i \in 1..n |-> PickOf(RhoPool, Seed, k, x + i)] ELSE <<>>)
        [] q = 9 -> set("offset", Other(OffPool, D.offset, x))
        [] q = 10 -> set("m", Other(<<2, 3, 4>>, D.m, x))
        [] q = 11 -> set("n", Other(<<2, 3, 4>>, D.n, x))
        [] q = 12 -> set("fl", Flags(Seed, k, x))
        [] q = 13 -> set("N", [i \in 1..3 |-> PickOf(NPool, Seed, k, x + i)])
        [] q = 14 -> set("Nc", [i \in 1..3 |-> PickOf(NPool, Seed, k, x + i)])
        [] q = 15 -> set("ortho", ~D.ortho)
        [] q = 16 -> set("sub", IF D.sub = <<"", "", "", "">> THEN Sub(D, Seed, k, x) ELSE <<"", "", "", "">>)
        [] q = 17 -> set("rho", Other(RhoPool, D.rho, x))
        [] q = 18 -> set("a", Longer(D.a))
        [] q = 19 -> set("b", Longer(D.b))
        [] q = 20 -> set("flow", Other(<<"x", "y">>, D.flow, x))
        [] q = 21 -> set("beta", IF D.beta = "" THEN "3/2" ELSE "")
        [] q = 22 -> set("Mach", Other(<<"5/4", "5/3", "13/5", "13/12", "1", "2">>, D.Mach, x))
        [] q = 23 -> set("V", Other(<<"2", "3/2", "1">>, D.V, x))
        [] q = 24 -> set("gamma", Other(<<"", "1/3", "2">>, D.gamma, x))
        [] q = 25 -> IF Len(D.loads) < 5 THEN << LoadEv(s, Load(D, "load", Seed, k, x)) >> ELSE <<>>
        [] q = 26 -> IF Len(D.loads) < 5 THEN << LoadEv(s, Load(D, "pd", Seed, k, x)) >> ELSE <<>>
        [] q = 27 -> << [op |-> "reload", s |-> s] >>
        [] q = 28 -> set("plyt", D.plyt)
        \* lists given outright that say what the single values say already
        [] q = 29 -> IF D.plyt = "" THEN <<>> ELSE set("plyts", [i \in 1..n |-> D.plyt])
        [] q = 30 -> IF D.prop = <<>> THEN <<>> ELSE set("props", [i \in 1..n |-> D.prop])
        [] q = 31 -> IF D.rho = "" THEN <<>> ELSE set("rhos", [i \in 1..n |-> D.rho])

-----------------------------------------------------------------------------
(* Ill-posed requests, and well-posed ones next to them. *)
NBad == 37
\* shapes of two point arrays: several have as many entries but another shape
ShapePairs == << <<<<3>>, <<2>>>>, <<<<2, 3>>, <<3, 2>>>>, <<<<4>>, <<4>>>>, <<<<1>>, <<2>>>>, <<<<6>>, <<2, 3>>>>, <<<<2, 2>>, <<2, 2>>>>, <<<<1, 4>>, <<4, 1>>>>,
                 <<<<2, 2>>, <<4>>>>, <<<<2, 3>>, <<2, 3>>>>, <<<<1, 3>>, <<3>>>>, <<<<2, 3>>, <<3>>>> >>
C_(call, s, form) == [op |-> "bad", s |-> s, what |-> "vector", call |-> call, form |-> form, args |-> <<>>]
\* a definition that misses something, the request, and the definition made good again
Missing(s, sets, call, back) == [i \in 1..Len(sets) |-> SetEv(s, sets[i][1], sets[i][2])] \o << C_(call, s, "ok") >>
                                \o [i \in 1..Len(back) |-> SetEv(s, back[i][1], back[i][2])]
Calls == <<"kC", "kG", "kT", "fint", "uvw", "strain", "stress">>
Forms == <<"list", "2d", "short", "long", "ok">>
NeedLam == <<"kC", "kG", "kT", "kM", "fext", "fint", "stress">>
BadOf(q, s, D, x) ==
  LET call == PickOf(Calls, Seed, k, x)
      need == PickOf(NeedLam, Seed, k, x + 1)
      b(what, form, args) == << [op |-> "bad", s |-> s, what |-> what, call |-> call, form |-> form, args |-> args] >>
  IN  CASE q \in 1..7 -> << C_(Calls[q], s, PickOf(<<"list", "2d", "short", "long">>, Seed, k, x + 2)) >>
        [] q \in 8..11 -> << C_(call, s, Forms[q - 6]) >>
        [] q = 12 -> Missing(s, <<<<"stack", <<>>>>>>, need, <<<<"stack", D.stack>>>>)
        [] q = 13 -> Missing(s, <<<<"plyt", "">>, <<"plyts", <<>>>>>>, need, <<<<"plyt", D.plyt>>, <<"plyts", D.plyts>>>>)
        [] q = 14 -> Missing(s, <<<<"prop", <<>>>>, <<"props", <<>>>>>>, need, <<<<"prop", D.prop>>, <<"props", D.props>>>>)
        [] q = 15 -> b("model", need, <<>>)
        [] q \in {16, 17} -> Missing(s, <<<<"beta", "">>, <<"Mach", PickOf(<<"1/2", "9/10", "", "0", "1">>, Seed, k, x + 3)>>>>, "kA", <<<<"beta", D.beta>>, <<"Mach", D.Mach>>>>)
        [] q = 18 -> Missing(s, <<<<"beta", "">>, <<PickOf(<<"rho_air", "V">>, Seed, k, x + 3), "">>>>, "kA", <<<<"beta", D.beta>>, <<"rho_air", D.rho_air>>, <<"V", D.V>>>>)
        [] q = 19 -> Missing(s, <<<<"flow", PickOf(<<"z", "xy", "">>, Seed, k, x + 3)>>>>, "kA", <<<<"flow", D.flow>>>>)
        [] q \in {20, 21} -> b("noload", PickOf(<<"linex", "liney">>, Seed, k, x + 4), <<>>)
        [] q \in 22..25 -> b("nopd", PickOf(<<"linex", "liney">>, Seed, k, x + 4),
                             << PickOf(<<"", "2">>, Seed, k, x + 5), PickOf(<<"", "2">>, Seed, k, x + 6), PickOf(<<"", "2">>, Seed, k, x + 7),
                                PickOf(<<"", "2">>, Seed, k, x + 8), PickOf(<<"", "2">>, Seed, k, x + 9), PickOf(<<"", "2">>, Seed, k, x + 10) >>)
        [] q \in {26, 27} -> b("points", PickOf(<<"uvw", "strain", "stress">>, Seed, k, x + 4), PickOf(ShapePairs, Seed, k, x + 5))
        [] q \in {28, 29} -> b("stiffness", PickOf(<<"kC", "kG", "kT", "fint">>, Seed, k, x + 4),
                               PickOf(<< <<8, 9, 6, 6>>, <<9, 9, 6, 5>>, <<9, 10, 6, 6>>, <<9, 9, 6, 6>>, <<9, 6, 6>> >>, Seed, k, x + 5))
        [] q = 30 -> b("inertia", PickOf(<<"h", "rho">>, Seed, k, x + 4), PickOf(<< <<8, 9>>, <<9, 8>>, <<9, 9>>, <<81>> >>, Seed, k, x + 5))
        [] q \in {31, 32} -> b("terms", PickOf(<<"kC", "kG", "kT", "fint", "uvw", "strain", "stress", "kM", "fext", "kA", "size", "kPC">>, Seed, k, x + 4),
                               << PickOf(<<30, 31, 33, 40>>, Seed, k, x + 5), H(x + 6) % 2 >>)
        [] q \in {33, 34} -> b("orders", PickOf(<<"kC", "kG", "kT", "fint", "kM", "kA">>, Seed, k, x + 4),
                               PickOf(<< <<1, 3>>, <<4, 1>>, <<65, 5>>, <<5, 65>>, <<100, 100>>, <<0, 4>>, <<2, 2>>, <<64, 3>>, <<5, 64>> >>, Seed, k, x + 5))
        [] q = 35 -> << [op |-> "bad", s |-> s, what |-> "plot", call |-> PickOf(<<"u", "W", "foo", "phix", "Nxx", "wx", "kxy", "">>, Seed, k, x + 4), form |-> "", args |-> <<>>] >>
        [] q \in {36, 37} -> << [op |-> "bad", s |-> s, what |-> "axes", call |-> PickOf(<<"none", "axes", "figure", "text">>, Seed, k, x + 4), form |-> "", args |-> <<>>] >>

-----------------------------------------------------------------------------
(* Assemblies over three shells that share their sides. *)
Compat(i) == LET d == Base_(4000 * i) IN [d EXCEPT !.a = "3/2", !.b = "1", !.group = IF i = 3 THEN "h" ELSE "g", !.loads = IF i = 2 THEN <<>> ELSE
                  <<Load([d EXCEPT !.a = "3/2", !.b = "1"], "load", Seed, k, 4000 * i + 900)>>]
SetupAsm == << NewShell("s", Compat(1)), NewShell("t", Compat(2)), NewShell("r", Compat(3)),
               Conns("K", <<Joint("s", "t", "SSycte", "1", "0"), Joint("t", "r", "BFycte", "1/2", "0")>>),
               Conns("L", <<Joint("r", "s", "SSycte", "0", "1"), Joint("t", "s", "SB", "", "")>>),
               Asm("A", <<"s", "t", "r">>, "K"), Asm("B", <<"t", "s">>, ""), Asm("C", <<"r", "t", "s">>, "L") >>
NAsm == 13
AsmOf(q, A, x) ==
  LET a == st.asms[A]
      n == Total(st.shells, a.panels)
      v == V2(x, n)
      c == Vec(Seed, k, x + 10, Amp(x + 13))
      conn == IF A = "B" THEN "" ELSE PickOf(<<"", "", "K", "L">>, Seed, k, x + 20)
      w(e) == [e EXCEPT !.conn = conn]
      joined == A # "B"
      two == << Joint("s", "t", "SSycte", "1", "0") >>
  IN  CASE q = 1 -> SizeOfAsm(A)
        [] q = 2 -> IF joined THEN w([Ev("aKC", A, IF H(x + 21) % 2 = 0 THEN c ELSE NoVec, v) EXCEPT !.NL = H(x + 27) % 2 = 0]) ELSE Ev("aKM", A, NoVec, v)
        [] q = 3 -> IF joined THEN w(Ev("aConn", A, NoVec, v)) ELSE SizeOfAsm(A)
        [] q = 4 -> [Ev("aKG", A, IF H(x + 21) % 2 = 0 THEN c ELSE NoVec, v) EXCEPT !.NL = H(x + 27) % 2 = 0]
        [] q = 5 -> Ev("aKM", A, NoVec, v)
        [] q = 6 -> IF joined THEN Ev("aKT", A, IF H(x + 21) % 2 = 0 THEN c ELSE NoVec, v) ELSE Ev("aKG", A, c, v)
        [] q = 7 -> IF joined THEN Ev("aFint", A, c, v) ELSE Ev("aKM", A, NoVec, v)
        [] q = 8 -> ExtEv(A, PickOf(Incs, Seed, k, x + 22), v)
        [] q = 9 -> FieldOf(A, "uvw", c, PickOf(<<"g", "h">>, Seed, k, x + 23), 2, 3, FALSE)
        [] q = 10 -> FieldOf(A, "strain", c, PickOf(<<"g", "h">>, Seed, k, x + 23), 3, 2, H(x + 24) % 2 = 0)
        [] q = 11 -> FieldOf(A, "stress", c, PickOf(<<"g", "h">>, Seed, k, x + 23), 2, 2, H(x + 24) % 2 = 0)
        [] q = 12 -> GaussOf(A, PickOf(<<"uvw", "strain", "stress">>, Seed, k, x + 25), c, "g", <<"1/8", "3/4">>, <<"1/2">>, H(x + 24) % 2 = 0)
        [] q = 13 -> PlotOf(A, PickOf(NamesUVW \o NamesE \o NamesN, Seed, k, x + 26), c, "g", 3, 3)
\* changes that keep the sides
NKeepSides == 14
KeepSides == <<1, 2, 4, 5, 6, 9, 10, 11, 12, 13, 14, 17, 25, 26>>
\* a new list under an old name, a new assembly over the same shells
NRemake == 5
Remake(q) ==
  CASE q = 1 -> Conns("K", <<Joint("t", "r", "BFycte", "1/2", "0"), Joint("s", "t", "SSycte", "1", "0")>>)
    [] q = 2 -> Asm("A", <<"r", "s", "t">>, "K")
    [] q = 3 -> Asm("B", <<"s", "t">>, "")
    [] q = 4 -> Asm("C", <<"t", "r", "s">>, "K")
    [] q = 5 -> Asm("A", <<"s", "t", "r">>, "L")

\* Ill-posed requests on assemblies
NAsmBad == 12
AsmBadOf(q, A, x) ==
  LET b(what, call, form) == [op |-> "bad", A |-> A, what |-> what, call |-> call, form |-> form, args |-> <<>>] IN
  CASE q = 1 -> b("avector", PickOf(<<"aKC", "aKG", "aKT", "aFint">>, Seed, k, x), PickOf(<<"2d", "short", "long", "ok">>, Seed, k, x + 1))
    [] q = 2 -> b("avector", PickOf(<<"uvw", "strain", "stress">>, Seed, k, x), PickOf(<<"2d", "short", "long", "ok">>, Seed, k, x + 1))
    [] q = 3 -> b("func", PickOf(<<"aKC", "aConn">>, Seed, k, x), PickOf(<<"SSzcte", "", "bf", "SSycte">>, Seed, k, x + 1))
    [] q = 4 -> b("noconn", PickOf(<<"aKC", "aConn", "aKT", "aFint">>, Seed, k, x), "")
    [] q = 5 -> b("gauss", PickOf(<<"uvw", "strain", "stress">>, Seed, k, x), PickOf(<<"none", "x", "y", "xy">>, Seed, k, x + 1))
    [] q = 6 -> b("plot", PickOf(<<"u", "W", "foo", "phix", "Nxx", "wx">>, Seed, k, x), "")
    [] q = 7 -> b("notshell", "", "")
    [] q \in {9, 10} -> b("tsl", PickOf(<<"direct", "aKC", "aConn", "aKT", "aFint">>, Seed, k, x), PickOf(<<"", "a", "b", "ab", "law">>, Seed, k, x + 1))
    [] q = 11 -> b("axes", PickOf(<<"none", "axes", "figure", "text">>, Seed, k, x), "")
    [] q = 12 -> b("nolam", PickOf(<<"aKC", "aKG", "aKM", "aKT", "aFint", "stress">>, Seed, k, x), PickOf(<<"stack", "plyt", "prop">>, Seed, k, x + 1))
    [] q = 8 -> b("penalty", PickOf(<<"zcte", "ycte", "xcte">>, Seed, k, x), PickOf(<<"", "stack", "plyt", "prop">>, Seed, k, x + 1))

-----------------------------------------------------------------------------
Run(s0, evs) == LET RECURSIVE F(_, _)
                    F(s, i) == IF i > Len(evs) THEN s ELSE F(Step(s, evs[i]), i + 1)
                IN  F(s0, 1)
Setup == IF Prop = "C16" \/ (Prop = "C20" /\ k % 3 = 0) THEN SetupAsm ELSE << NewShell("s", IF Mode = "trips" /\ k % 2 = 1 THEN [Base_(0) EXCEPT !.plyts = <<>>, !.props = <<>>, !.rhos = <<>>, !.plyt = PickOf(PlyPool, Seed, k, 930), !.prop = PickOf(PropPool, Seed, k, 931),
                                                                                                  !.rho = PickOf(RhoPool, Seed, k, 932)] ELSE Base_(0)) >>
IsAsm == "t" \in DOMAIN st.shells
S_(x) == IF IsAsm THEN PickOf(<<"s", "t", "r">>, Seed, k, x) ELSE "s"
A_name(x) == PickOf(<<"A", "B", "C">>, Seed, k, x)
D_(s) == st.shells[s]

Append_(evs, t) == /\ hist' = hist \o evs
                /\ st' = Run(st, evs)
                /\ k' = k /\ tag' = t

\* The moves of one step of a walk; weights by hash.
CalcMove(x) == << CalcOf(1 + (H(x) % NCalc), S_(x + 1), D_(S_(x + 1)), x + 40) >>
SetMove(x) == LET s == S_(x + 1)
                  q == IF IsAsm THEN KeepSides[1 + (H(x) % NKeepSides)] ELSE 1 + (H(x) % NSet)
                  e == SetOf(q, s, D_(s), x + 40)
              IN  IF e = <<>> THEN CalcMove(x) ELSE e
AsmMove(x) == << AsmOf(1 + (H(x) % NAsm), A_name(x + 1), x + 40) >>
Move(x) ==
  LET z == H(x + 500) % 100 IN
  CASE Prop = "C17" -> IF z < 45 THEN SetMove(x) ELSE CalcMove(x)
    [] Prop = "C16" -> IF z < 15 THEN SetMove(x) ELSE IF z < 22 THEN << Remake(1 + (H(x + 501) % NRemake)) >> ELSE IF z < 30 THEN CalcMove(x) ELSE AsmMove(x)
    [] Prop = "C20" -> IF IsAsm THEN (IF z < 60 THEN << AsmBadOf(1 + (H(x) % NAsmBad), A_name(x + 1), x + 40) >> ELSE AsmMove(x))
                       ELSE IF z < 60 THEN BadOf(1 + (H(x) % NBad), "s", D_("s"), x + 40) ELSE IF z < 75 THEN SetMove(x) ELSE CalcMove(x)

Init == /\ k \in 1..Count
        /\ hist = Setup
        /\ st = Run(Empty, Setup)
        /\ full = FALSE
        /\ tag = 0
\* "pairs": every calculation, then every change, then the same calculation and another one.
PairSteps ==
  LET n == Len(hist) - Len(Setup) IN
  CASE n = 0 -> \E q \in 1..NCalc : Append_(<<CalcOf(q, "s", D_("s"), Salt)>>, q) /\ full' = FALSE
    [] n = 1 -> \E q \in 1..NSet :
                  LET e == SetOf(q, "s", D_("s"), Salt)
                      st2 == Run(st, e)
                      q2 == tag
                      again == CalcOf(q2, "s", st2.shells["s"], Salt + 400)
                      more == CalcOf(1 + (Hash(Seed, 31 * q + q2, k) % NCalc), "s", st2.shells["s"], Salt + 800)
                  IN  /\ e # <<>>
                      /\ Hash(Seed, 131 * q + q2, 7 + k) % Keep_ = 0
                      /\ hist' = hist \o e \o << again, more >>
                      /\ st' = st2 /\ k' = k /\ tag' = 100 * q2 + q /\ full' = TRUE
    [] OTHER -> FALSE
\* "trips": a calculation, a change, the calculation (mostly), another change, the calculation and another one.
Must == {<<27, 3>>, <<27, 4>>, <<27, 5>>, <<27, 17>>, <<27, 2>>, <<27, 18>>, <<29, 4>>, <<30, 5>>, <<31, 17>>, <<29, 27>>, <<6, 4>>, <<7, 5>>, <<8, 17>>, <<4, 27>>, <<5, 27>>, <<17, 27>>}
Dep(q, h) == CASE q \in {17, 8, 31} -> <<9, 10>>[1 + (h % 2)]
               [] q \in 20..24 -> <<11, 12>>[1 + (h % 2)]
               [] q \in {25, 26} -> 15
               [] OTHER -> 1 + (h % 19)
TripSteps ==
  \E q1 \in 1..NSet : \E q2 \in 1..NSet :
     LET h == Hash(Seed, 131 * q1 + 17 * q2, 9 + k)
         c1 == Dep(q2, h \div 16)
         D0 == D_("s")
         ev1 == << CalcOf(c1, "s", D0, Salt) >>
         e1 == SetOf(q1, "s", D0, Salt + 100)
         st1 == Run(Run(st, ev1), e1)
         D1 == st1.shells["s"]
         mid == IF h % 4 = 0 THEN <<>> ELSE << CalcOf(c1, "s", D1, Salt + 200) >>
         e2 == SetOf(q2, "s", D1, Salt + 300)
         st2 == Run(st1, mid \o e2)
         D2 == st2.shells["s"]
     IN  /\ h % Keep_ = 0 \/ <<q1, q2>> \in Must
         /\ e1 # <<>> /\ e2 # <<>>
         /\ hist' = hist \o ev1 \o e1 \o mid \o e2 \o << CalcOf(c1, "s", D2, Salt + 400), CalcOf(1 + ((h \div 7) % NCalc), "s", D2, Salt + 800) >>
         /\ st' = st2 /\ k' = k /\ tag' = 1000 + 100 * q1 + q2 /\ full' = TRUE
WalkStep == /\ ~full
            /\ Append_(Move(Salt), tag)
            /\ full' = (Len(hist') >= Depth + Len(Setup))
Next == CASE Mode = "pairs" -> ~full /\ PairSteps [] Mode = "trips" -> ~full /\ TripSteps [] OTHER -> WalkStep
Out == ~full \/ PrintT(<<"CASE", ToJson([id |-> ToString(k) \o "." \o ToString(tag), ev |-> hist])>>)
=============================================================================
