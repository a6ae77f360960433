-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* Assemblies of shells: the place of each domain, the penalty energies of *)
(* the connections, and the value of every assembled form.                 *)
(*                                                                         *)
(* A connection is [p1, p2, func, c1, c2, tsl]: the names of the joined    *)
(* domains, the type, and the position of the line in each of them.        *)
(***************************************************************************)
EXTENDS Shell

RECURSIVE Before(_, _, _)
\* Number of degrees of freedom before domain number i of a sequence of names.
Before(shells, names, i) == IF i = 1 THEN 0 ELSE Before(shells, names, i - 1) + Num(shells[names[i - 1]])
Start(shells, names, s) == Before(shells, names, CHOOSE i \in 1..Len(names) : names[i] = s)
Total(shells, names) == Before(shells, names, Len(names) + 1)

-----------------------------------------------------------------------------
(* Penalty constants. *)
HarmonicOf(x, y, h) == RDiv(RMul(4, RMul(x, y)), RMul(RAdd(x, y), h))
LamA(L) == LamMoment(L, 0)
LamD(L) == LamMoment(L, 2)
KtKr(L1, L2, kind) ==
  LET h == RAdd(Thickness(L1), Thickness(L2))
      i1 == IF kind \in {"xcte", "bot-top", "xcte-ycte"} THEN 1 ELSE 2
      i2 == IF kind \in {"xcte", "bot-top", "ycte-xcte"} THEN 1 ELSE 2
  IN  << HarmonicOf(MGet(LamA(L1), i1, i1), MGet(LamA(L2), i2, i2), h),
         HarmonicOf(MGet(LamD(L1), i1, i1), MGet(LamD(L2), i2, i2), h) >>
\* Constants of a connection between domains of definitions D1 and D2.
Constants(cn, D1, D2) ==
  LET L1 == LamOf(D1)   L2 == LamOf(D2) IN
  CASE cn.func \in {"SSxcte", "BFxcte"} -> KtKr(L1, L2, "xcte")
    [] cn.func \in {"SSycte", "BFycte"} -> KtKr(L1, L2, "ycte")
    [] cn.func = "SB" -> << RDiv(KtKr(L1, L2, "bot-top")[1], RMin(A_(D1), B_(D1))), R(0) >>
    [] cn.func = "SB_TSL" -> << RDiv(R("10000"), RMul(A_(D1), B_(D1))), R(0) >>
\* Distance of the mid-surfaces of skin and base.
Dsb(D1, D2) == RDiv(RAdd(Thickness(LamOf(D1)), Thickness(LamOf(D2))), 2)

-----------------------------------------------------------------------------
(* Gap of a connection for the fields F1, F2 of the two domains: a sequence of <<constant, polynomial>>, the energy
   being half the integral of constant * polynomial^2 over the joined line or area.  ab: sums instead of differences. *)
Gap(cn, D1, F1, D2, F2, ab) ==
  LET k == Constants(cn, D1, D2)
      kt == k[1]   kr == k[2]
      minus(P, Q) == IF ab THEN MAdd(P, Q) ELSE MSub(P, Q)
      X1(P) == OnX(D1, P, R(cn.c1), ab)   X2(P) == OnX(D2, P, R(cn.c2), ab)
      Y1(P) == OnY(D1, P, R(cn.c1), ab)   Y2(P) == OnY(D2, P, R(cn.c2), ab)
      d == Dsb(D1, D2)
  IN CASE cn.func = "SSxcte" -> << <<kt, minus(X1(F1.u), X2(F2.u))>>, <<kt, minus(X1(F1.v), X2(F2.v))>>, <<kt, minus(X1(F1.w), X2(F2.w))>>,
                                   <<kr, minus(X1(F1.wx), X2(F2.wx))>> >>
       [] cn.func = "SSycte" -> << <<kt, minus(Y1(F1.u), Y2(F2.u))>>, <<kt, minus(Y1(F1.v), Y2(F2.v))>>, <<kt, minus(Y1(F1.w), Y2(F2.w))>>,
                                   <<kr, minus(Y1(F1.wy), Y2(F2.wy))>> >>
       [] cn.func = "BFycte" -> << <<kt, minus(Y1(F1.u), Y2(F2.u))>>, <<kt, minus(Y1(F1.v), Y2(F2.w))>>, <<kt, MAdd(Y1(F1.w), Y2(F2.v))>>,
                                   <<kr, minus(Y1(F1.wy), Y2(F2.wy))>> >>
       [] cn.func = "BFxcte" -> << <<kt, minus(X1(F1.u), X2(F2.w))>>, <<kt, minus(X1(F1.v), X2(F2.v))>>, <<kt, MAdd(X1(F1.w), X2(F2.u))>>,
                                   <<kr, minus(X1(F1.wx), X2(F2.wx))>> >>
       [] cn.func \in {"SB", "SB_TSL"} ->
            << <<kt, minus(MAdd(F1.u, MScale(d, F1.wx)), F2.u)>>, <<kt, minus(MAdd(F1.v, MScale(d, F1.wy)), F2.v)>>, <<kt, minus(F1.w, F2.w)>> >>
Along(cn, D1, P, ab) ==
  CASE cn.func \in {"SSxcte", "BFxcte"} -> IntY(D1, P, ab)
    [] cn.func \in {"SSycte", "BFycte"} -> IntX(D1, P, ab)
    [] cn.func \in {"SB", "SB_TSL"} -> Integral([D1 EXCEPT !.sub = <<"", "", "", "">>], P, ab)
\* Bilinear form of one connection from the gaps G, H of two global fields.
ConnForm(cn, D1, G, H, ab) == RSumSeq([q \in 1..Len(G) |-> RMul(G[q][1], Along(cn, D1, PMul(G[q][2], H[q][2]), ab))])

-----------------------------------------------------------------------------
(* Global fields: one field per domain. *)
GlobalField(shells, names, v, ab) == [i \in 1..Len(names) |-> Field(shells[names[i]], v, Before(shells, names, i), ab)]
IndexOf(names, s) == CHOOSE i \in 1..Len(names) : names[i] = s
Gaps(shells, names, conns, GF, ab) ==
  [q \in 1..Len(conns) |-> LET cn == conns[q] IN
     Gap(cn, shells[cn.p1], GF[IndexOf(names, cn.p1)], shells[cn.p2], GF[IndexOf(names, cn.p2)], ab)]
ConnSum(shells, conns, G, H, ab) == RSumSeq([q \in 1..Len(conns) |-> ConnForm(conns[q], shells[conns[q].p1], G[q], H[q], ab)])
DomainSum(names, f(_)) == RSumSeq([i \in 1..Len(names) |-> f(i)])

\* Penalty of prescribed displacements, of a point and along a line.
PdGap(D, kind, F, x, y, ab) ==
  LET P == <<F.u, F.v, F.w>> IN
  [i \in 1..3 |-> CASE kind = "point" -> ConstPoly(AtXY(D, P[i], x, y, ab)) [] kind = "linex" -> OnX(D, P[i], x, ab) [] kind = "liney" -> OnY(D, P[i], y, ab)]
PdForm(D, kind, ks, G, H, ab) ==
  RSumSeq([i \in 1..3 |-> LET p == PMul(G[i], H[i]) IN
     RMul(R(ks[i]), CASE kind = "point" -> MGet(p, 1, 1) [] kind = "linex" -> IntY(D, p, ab) [] kind = "liney" -> IntX(D, p, ab))])
=============================================================================
