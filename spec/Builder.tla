------------------------------- MODULE Builder -------------------------------
(***************************************************************************)
(* The ready-made assemblies: the domains, the connections and the loads   *)
(* that their parameters describe, and the equations that the returned     *)
(* displacements and modes must satisfy.                                   *)
(*                                                                         *)
(* fn names the builder: a ring of sectors (cyl, cyl_lb, cyl_static,       *)
(* cyl_spla), a ring with one blade per sector (bcyl, bcyl_lb,             *)
(* bcyl_static), a T-stiffened panel (ts_comp, ts_freq, ts_flutter).       *)
(* g holds its parameters; static says if the stresses come from a static  *)
(* analysis.                                                               *)
(***************************************************************************)
EXTENDS Conn

Pi == R("3.1415926535897932384626433832795028841971693993751")
RingFns == {"cyl", "cyl_lb", "cyl_static", "cyl_spla"}
BladeFns == {"bcyl", "bcyl_lb", "bcyl_static"}
TFns == {"ts_comp", "ts_freq", "ts_flutter"}
Cylinder(fn) == fn \in RingFns \cup BladeFns
Bare(fn) == fn \in {"cyl", "bcyl"}            \* only builds
Steady(fn, g) == IF fn \in TFns THEN g.static ELSE fn \in {"cyl_static", "bcyl_static"}
NameOf(A, i) == A \o "." \o ToString(i)
Nth(n) == [i \in 1..n |-> i]
Text0(t) == IF t = "" THEN "0" ELSE t

-----------------------------------------------------------------------------
(* Domains.  Numbers are exact; fl = flags as for Shell; N = constant Nxx. *)
Free4 == <<1, 1, 1, 1>>
Sides(x1, x2, y1, y2) ==      \* each a triple of flags of u, v, w on that edge; the rotations are free
  [q \in 1..6 |-> LET d == 1 + (q - 1) \div 2 IN IF q % 2 = 1 THEN <<x1[d], 1, x2[d], 1>> ELSE <<y1[d], 1, y2[d], 1>>]
F3 == <<1, 1, 1>>
Fixed3 == <<0, 0, 0>>
NoAir == [rho_air |-> "", V |-> "", Mach |-> "", flow |-> "x"]

\* A ring of g.np equal sectors, the loaded edge free to move along x in the analyses.
RingFlags(fn) == Sides(Fixed3, IF Bare(fn) THEN Fixed3 ELSE <<1, 0, 0>>, F3, F3)
Sector(fn, g, i) ==
  LET b == RDiv(RMul(RMul(2, Pi), R(g.r)), g.np) IN
  [group |-> "skin", x0 |-> R(0), y0 |-> RMul(b, i - 1), a |-> R(g.a), b |-> b, r |-> R(g.r), m |-> g.m, n |-> g.n,
   stack |-> g.stack, plyt |-> g.plyt, prop |-> g.prop, rho |-> "0", fl |-> RingFlags(fn),
   N |-> IF fn \in {"cyl_lb", "bcyl_lb"} THEN g.Nxxs[i] ELSE "0", order |-> <<0, 0>>, air |-> NoAir]
Blade(fn, g, i) ==
  [Sector(fn, g, i) EXCEPT !.group = "blade_0" \o ToString(i - 1), !.b = R(g.widths[i]), !.r = R(0), !.stack = g.stacks[i],
                           !.N = IF fn = "bcyl_lb" THEN g.Nxxb[i] ELSE "0"]

\* The T-stiffened panel: three rows along x, the middle one with the debonding; left, middle and right columns of skin,
\* the base under the middle column and the flange on the middle of the base.
RowOf(k) == CASE k \in {1, 2, 3, 10, 11} -> "up" [] k \in {4, 5, 6, 12, 13} -> "mid" [] k \in {7, 8, 9, 14, 15} -> "low"
ColOf(k) == CASE k \in {1, 4, 7} -> "left" [] k \in {2, 5, 8} -> "middle" [] k \in {3, 6, 9} -> "right"
              [] k \in {10, 12, 14} -> "base" [] k \in {11, 13, 15} -> "flange"
PartAt(row, col) == CHOOSE k \in 1..15 : RowOf(k) = row /\ ColOf(k) = col
Part(k) == IF k <= 9 THEN "skin" ELSE ColOf(k)
Defect(g) == IF R(g.defect) = R(0) THEN RMul(R("0.33"), R(g.a)) ELSE RMul(R(g.defect), R(g.a))
Debonded(g) == ~RLe(R(g.defect), R(0))
NxxOf(g, k) == g.Nx[CASE Part(k) = "skin" -> 1 [] Part(k) = "base" -> 2 [] OTHER -> 3]
TeeFlags(fn, g, k) ==
  LET col == ColOf(k)   row == RowOf(k)
      top == IF row = "up" /\ col # "base" THEN Fixed3 ELSE F3
      bottom == IF row = "low" /\ col # "base" THEN <<IF fn = "ts_comp" /\ ~g.static THEN 0 ELSE 1, 0, 0>> ELSE F3
  IN  Sides(bottom, top, IF col = "right" THEN <<1, 0, 0>> ELSE F3, IF col = "left" THEN <<1, 0, 0>> ELSE F3)
Tee(fn, g, k) ==
  LET row == RowOf(k)   col == ColOf(k)   p == Part(k)
      len == IF row = "mid" THEN Defect(g) ELSE RDiv(RSub(R(g.a), Defect(g)), 2)
      low == RDiv(RSub(R(g.a), Defect(g)), 2)
      bh == RDiv(R(g.bb), 2)
      size(own, common) == IF own = 0 THEN common ELSE own
  IN  [group |-> p, a |-> len, x0 |-> CASE row = "up" -> RAdd(low, Defect(g)) [] row = "mid" -> low [] OTHER -> R(0),
       y0 |-> CASE col = "left" -> RAdd(R(g.ys), bh) [] col \in {"middle", "base"} -> RSub(R(g.ys), bh) [] OTHER -> R(0),
       b |-> CASE col = "left" -> RSub(RSub(R(g.b), R(g.ys)), bh) [] col = "right" -> RSub(R(g.ys), bh)
               [] col = "flange" -> R(g.bf) [] OTHER -> R(g.bb),
       r |-> IF p = "flange" THEN R(0) ELSE R(Text0(g.r)),
       m |-> CASE p = "skin" -> g.m [] p = "base" -> size(g.mn[1], g.m) [] OTHER -> size(g.mn[3], g.m),
       n |-> CASE p = "skin" -> g.n [] p = "base" -> size(g.mn[2], g.n) [] OTHER -> size(g.mn[4], g.n),
       stack |-> CASE p = "skin" -> g.stack [] p = "base" -> g.base [] OTHER -> g.flange,
       plyt |-> g.plyt, prop |-> g.prop, rho |-> g.rho, fl |-> TeeFlags(fn, g, k),
       N |-> IF fn = "ts_freq" \/ g.static THEN "0" ELSE Text0(NxxOf(g, k)),
       order |-> CASE p = "skin" -> <<g.order[1], g.order[2]>> [] p = "base" -> <<g.order[3], g.order[4]>> [] OTHER -> <<g.order[5], g.order[6]>>,
       air |-> IF fn = "ts_flutter" /\ p = "skin" THEN [rho_air |-> g.rho_air, V |-> g.V, Mach |-> g.Mach, flow |-> g.flow] ELSE NoAir]

Domains(fn, g) ==
  IF fn \in RingFns THEN [i \in 1..g.np |-> Sector(fn, g, i)]
  ELSE IF fn \in BladeFns THEN [i \in 1..(2 * g.np) |-> IF i <= g.np THEN Sector(fn, g, i) ELSE Blade(fn, g, i - g.np)]
  ELSE [k \in 1..15 |-> Tee(fn, g, k)]

-----------------------------------------------------------------------------
(* Connections: <<domain, domain, type, place in the first, place in the second>>; a place is the start, the end or the
   middle of the side. *)
Seams(np) == [i \in 1..np |-> <<i, IF i = np THEN 1 ELSE i + 1, "SSycte", "end", "start">>]
Rows == <<"up", "mid", "low">>
Links(fn, g) ==
  IF fn \in RingFns THEN Seams(g.np)
  ELSE IF fn \in BladeFns THEN Seams(g.np) \o [i \in 1..g.np |-> <<i, g.np + i, "BFycte", "start", "start">>]
  ELSE Flat([i \in 1..3 |-> << <<PartAt(Rows[i], "left"), PartAt(Rows[i], "middle"), "SSycte", "start", "end">>,
                               <<PartAt(Rows[i], "middle"), PartAt(Rows[i], "right"), "SSycte", "start", "end">>,
                               <<PartAt(Rows[i], "base"), PartAt(Rows[i], "flange"), "BFycte", "middle", "start">> >>])
       \o Flat([i \in 1..2 |-> LET C == <<"left", "middle", "right", "base", "flange">> IN
                [c \in 1..5 |-> <<PartAt(Rows[i], C[c]), PartAt(Rows[i + 1], C[c]), "SSxcte", "start", "end">>]])
       \o Flat([i \in 1..3 |-> IF Rows[i] = "mid" /\ Debonded(g) THEN <<>>
                               ELSE << <<PartAt(Rows[i], "middle"), PartAt(Rows[i], "base"), "SB", "", "">> >>])
PlaceText(D, func, w) ==
  LET side == IF func \in {"SSxcte", "BFxcte"} THEN D.a ELSE D.b IN
  CASE w = "start" -> "0" [] w = "end" -> side [] w = "middle" -> RShow(RDiv(R(side), 2)) [] w = "" -> ""
\* The connections between the domains defs, named after the assembly A.
BuiltConns(A, fn, g, defs) ==
  LET L == Links(fn, g) IN
  [q \in 1..Len(L) |-> [p1 |-> NameOf(A, L[q][1]), p2 |-> NameOf(A, L[q][2]), func |-> L[q][3], tsl |-> "linear",
                        c1 |-> PlaceText(defs[L[q][1]], L[q][3], L[q][4]), c2 |-> PlaceText(defs[L[q][2]], L[q][3], L[q][5])]]

-----------------------------------------------------------------------------
(* Loads of the static analyses.  The nonlinear one stops below the full load when the structure buckles; Easy: so small
   that all of it must be reached. *)
Easy(fn, g) == fn # "cyl_spla" \/ RLe(RAdd(RAbs(R(g.Nxxs[1])), RAbs(R(g.spla))), R("1/500"))
LineX(x, t) == [kind |-> "linex", via |-> "load", cte |-> TRUE, x |-> x, y |-> "", pk |-> <<"1", "1", "1">>, f |-> << <<t>>, <<>>, <<>> >>]
BuiltLoads(fn, g, D, i) ==
  CASE fn = "cyl_static" -> <<LineX(D.a, g.Nxxs[i])>>
    [] fn = "bcyl_static" -> <<LineX(D.a, IF i <= g.np THEN g.Nxxs[i] ELSE g.Nxxb[i - g.np])>>
    [] fn = "cyl_spla" -> <<LineX(D.a, g.Nxxs[1])>> \o
         (IF i = 1 THEN << [kind |-> "point", via |-> "load", cte |-> TRUE, x |-> RShow(RDiv(R(D.a), 2)), y |-> RShow(RDiv(R(D.b), 2)),
                            pk |-> <<"1", "1", "1">>, f |-> <<"0", "0", RShow(RNeg(R(g.spla)))>>] >> ELSE <<>>)
    [] fn \in TFns -> IF RowOf(i) = "low" /\ NxxOf(g, i) # "" THEN <<LineX("0", RShow(RNeg(R(NxxOf(g, i)))))>> ELSE <<>>
    [] OTHER -> <<>>

-----------------------------------------------------------------------------
(* What is observed of a built assembly agrees with its parameters. *)
Close(text, x) == Near(text, x, RMul(Pow10(-13), RMax(RAbs(x), Pow10(-3))))
SameText(t, w) == IF w = "" THEN t = "" ELSE Close(t, R(w))
NumSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(t) : Close(s[i], R(t[i]))
DomainMismatch(i, o, w) ==
  LET d == o.def
      say(ok, what) == IfSeq(~ok, FailT("domain " \o ToString(i) \o ": " \o what, ToString(o)))
      n == Len(w.stack)
  IN  say(d.group = w.group, "group") \o say(Close(o.x0, w.x0) /\ Close(o.y0, w.y0), "position")
      \o say(Close(d.a, w.a) /\ Close(d.b, w.b), "size")
      \o say(IF w.r = R(0) THEN d.r = "" ELSE d.r # "" /\ Close(d.r, w.r), "radius")
      \o say(d.m = w.m /\ d.n = w.n, "number of terms")
      \o say(w.order[1] = 0 \/ o.order[1] = w.order[1], "integration points along x")
      \o say(w.order[2] = 0 \/ o.order[2] = w.order[2], "integration points along y")
      \o say(d.stack = w.stack, "stacking sequence") \o say(NumSeq(d.plyts, [k \in 1..n |-> w.plyt]), "ply thickness")
      \o say(Len(d.props) = n /\ \A k \in 1..n : NumSeq(d.props[k], w.prop), "material") \o say(NumSeq(d.rhos, [k \in 1..n |-> w.rho]), "density")
      \o say(\A q \in 1..6 : \A k \in 1..4 : Near(d.fl[q][k], w.fl[q][k], 0), "edges")
      \o say(SameText(d.rho_air, w.air.rho_air) /\ SameText(d.V, w.air.V) /\ SameText(d.Mach, w.air.Mach) /\ d.flow = w.air.flow, "airflow")
\* A joint of two sides may be given either way round.
SameJoint(o, w, defs) ==
  LET c1 == PlaceText(defs[w[1]], w[3], w[4])   c2 == PlaceText(defs[w[2]], w[3], w[5]) IN
  /\ o.func = w[3]
  /\ \/ o.p1 = w[1] /\ o.p2 = w[2] /\ SameText(o.c1, c1) /\ SameText(o.c2, c2)
     \/ w[3] \in {"SSxcte", "SSycte"} /\ o.p1 = w[2] /\ o.p2 = w[1] /\ SameText(o.c1, c2) /\ SameText(o.c2, c1)
BuildClauses(e) ==
  LET W == Domains(e.fn, e.g)
      L == Links(e.fn, e.g)
      ds == e.obs.doms
      bad == IF Len(ds) # Len(W) THEN <<FailT("number of domains", ToString(Len(ds)))>>
             ELSE Flat([i \in 1..Len(W) |-> DomainMismatch(i, ds[i], W[i])])
      defs == [i \in 1..Len(ds) |-> ds[i].def]
      missing == SelectSeq(Nth(Len(L)), LAMBDA q : ~\E k \in 1..Len(e.obs.conns) : SameJoint(e.obs.conns[k], L[q], defs))
  IN  IF bad # <<>> THEN bad
      ELSE IF ~Bare(e.fn) THEN <<>>
      ELSE IfSeq(Len(e.obs.conns) # Len(L), FailT("number of connections", ToString(Len(e.obs.conns))))
           \o [k \in 1..Len(missing) |-> FailT("missing connection", ToString(L[missing[k]]))]
\* The definitions that are taken over into the state.
BuiltDefs(e) ==
  LET W == Domains(e.fn, e.g) IN
  [i \in 1..Len(W) |-> LET air == W[i].air IN
     [e.obs.doms[i].def EXCEPT !.N = <<W[i].N, "0", "0">>, !.rho_air = air.rho_air, !.V = air.V, !.Mach = air.Mach]]
BuiltNames(e) == [i \in 1..Len(Domains(e.fn, e.g)) |-> NameOf(e.A, i)]

-----------------------------------------------------------------------------
(* The equations.  A vector of an event is a description; the displacements and modes are given by their entries. *)
Coef(s) == [k |-> "coef", p |-> s, s |-> "1"]
\* Near zero against the sum of the absolute terms.
Small(x, scale, tol) == RLe(RAbs(x), RAdd(RMul(tol, scale), Pow10(-30)))
SystemForm(st, names, cs, U, V, ab) ==
  RAdd(DomainSum(names, LAMBDA p : KCForm(st.shells[names[p]], U[p], V[p], Zero, FALSE, <<>>, ab)),
       ConnSum(st.shells, cs, Gaps(st.shells, names, cs, U, ab), Gaps(st.shells, names, cs, V, ab), ab))
\* Prestress from a displacement, or uniform.
StressForm(st, names, U, V, X, steady, ab) ==
  DomainSum(names, LAMBDA p : LET D == st.shells[names[p]] IN
    KGForm(D, U[p], V[p], IF steady THEN MembraneForces(D, X[p], FALSE, <<>>, <<"0", "0", "0">>, ab) ELSE UniformForces(D.N, ab), ab))
=============================================================================
