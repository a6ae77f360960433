----------------------------- MODULE ConnSelf ------------------------------
(***************************************************************************)
(* Laws of the connection energies: symmetric, never negative, zero for    *)
(* fields that are continuous across the joint, the same from either side. *)
(***************************************************************************)
EXTENDS Conn, Cases
CONSTANTS Seed, Count

\* The field u = p[1] + p[2] x + p[3] y, v and w alike, of a domain, in its own coordinates.
Lin(D, p) == MAdd(MAdd(ConstPoly(R(p[1])), MScale(RMul(R(p[2]), RDiv(A_(D), 2)), Mat(<<<<1>>, <<1>>>>))),
                  MScale(RMul(R(p[3]), RDiv(B_(D), 2)), Mat(<<<<1, 1>>>>)))
LinField(D, pu, pv, pw) ==
  [u |-> Lin(D, pu), v |-> Lin(D, pv), w |-> Lin(D, pw), ux |-> ConstPoly(R(pu[2])), uy |-> ConstPoly(R(pu[3])), vx |-> ConstPoly(R(pv[2])),
   vy |-> ConstPoly(R(pv[3])), wx |-> ConstPoly(R(pw[2])), wy |-> ConstPoly(R(pw[3])), wxx |-> Zero, wyy |-> Zero, wxy |-> Zero]
\* The same field seen from an origin moved by dx, dy.
Moved(p, dx, dy) == <<RAdd(R(p[1]), RAdd(RMul(R(p[2]), R(dx)), RMul(R(p[3]), R(dy)))), p[2], p[3]>>
Neg3(p) == <<RNeg(R(p[1])), RNeg(R(p[2])), RNeg(R(p[3]))>>

Types == <<"SSxcte", "SSycte", "BFxcte", "BFycte", "SB", "SB_TSL">>
ConnLaws(k) ==
  LET D1 == Def(Seed, k, 0, 3, 4)
      type == Types[1 + (k % 6)]
      D2_ == Def(Seed, k, 2000, 3, 4)
      D2 == CASE type \in {"SSxcte", "BFxcte"} -> [D2_ EXCEPT !.b = D1.b] [] type \in {"SSycte", "BFycte"} -> [D2_ EXCEPT !.a = D1.a]
              [] OTHER -> [D2_ EXCEPT !.a = D1.a, !.b = D1.b]
      cn == [p1 |-> "s", p2 |-> "t", func |-> type, c1 |-> "0", c2 |-> IF type \in {"SSxcte", "BFxcte"} THEN D2.a ELSE D2.b, tsl |-> "linear"]
      sw == [cn EXCEPT !.c1 = cn.c2, !.c2 = cn.c1]
      v1 == Vec(Seed, k, 1000, "1")   v2 == Vec(Seed, k, 1003, "1")
      F1 == Field(D1, v1, 0, FALSE)   F2 == Field(D2, v1, Num(D1), FALSE)
      G1 == Field(D1, v2, 0, FALSE)   G2 == Field(D2, v2, Num(D1), FALSE)
      g == Gap(cn, D1, F1, D2, F2, FALSE)   h == Gap(cn, D1, G1, D2, G2, FALSE)
      E(x, y) == ConnForm(cn, D1, x, y, FALSE)
      pu == <<"1", "2", "-1">>   pv == <<"1/2", "-1", "3">>   pw == <<"2", "1", "1/3">>
      const(p) == <<p[1], "0", "0">>
      \* a continuous field: the line is x = 0 (y = 0) of D1 and the last x (y) of D2
      dx == IF type = "SSxcte" THEN D2.a ELSE "0"
      dy == IF type = "SSycte" THEN D2.b ELSE "0"
      C1 == LinField(D1, Moved(pu, dx, dy), Moved(pv, dx, dy), Moved(pw, dx, dy))
      C2 == LinField(D2, pu, pv, pw)
      \* translations seen by a flange that stands on the base
      S1 == LinField(D1, const(pu), const(pv), const(pw))
      S2 == CASE type \in {"SB", "SB_TSL"} -> LinField(D2, const(pu), const(pv), const(pw))
              [] type = "BFycte" -> LinField(D2, const(pu), const(Neg3(pw)), const(pv))
              [] type = "BFxcte" -> LinField(D2, const(Neg3(pw)), const(pv), const(pu))
              [] OTHER -> LinField(D2, const(pu), const(pv), const(pw))
      L1 == LamOf(D1)   L2 == LamOf(D2)
      zeroGap(A, B) == LET z == Gap(cn, D1, A, D2, B, FALSE) IN E(z, z) = R(0) /\ E(z, g) = R(0)
  IN  /\ E(g, h) = E(h, g)
      /\ RLt(0, E(g, g)) /\ RLe(RMul(E(g, h), E(g, h)), RMul(E(g, g), E(h, h)))
      /\ type \in {"SSxcte", "SSycte"} => zeroGap(C1, C2)
      /\ zeroGap(S1, S2)
      \* the whole assembly: one range per domain, the same energy whichever domain comes first
      /\ LET sh == "s" :> D1 @@ "t" :> D2   st == <<"s", "t">>   ts == <<"t", "s">> IN
         /\ Total(sh, st) = Total(sh, ts) /\ Start(sh, st, "t") = Num(D1) /\ Start(sh, ts, "s") = Num(D2)
         /\ Gaps(sh, st, <<cn>>, GlobalField(sh, st, v1, FALSE), FALSE) = <<g>>
      \* seen from the other side
      /\ type \in {"SSxcte", "SSycte"} =>
           LET g2 == Gap(sw, D2, F2, D1, F1, FALSE)   h2 == Gap(sw, D2, G2, D1, G1, FALSE) IN ConnForm(sw, D2, g2, h2, FALSE) = E(g, h)
      \* penalty constants
      /\ \A q \in {"xcte", "ycte", "bot-top"} : KtKr(L1, L2, q) = KtKr(L2, L1, q)
      /\ KtKr(L1, L2, "xcte-ycte") = KtKr(L2, L1, "ycte-xcte")
      /\ \A q \in {"xcte", "ycte", "xcte-ycte"} : RLt(0, KtKr(L1, L2, q)[1]) /\ RLt(0, KtKr(L1, L2, q)[2])
      \* the absolute version bounds the exact one
      /\ LET ga == Gap(cn, D1, Field(D1, v1, 0, TRUE), D2, Field(D2, v1, Num(D1), TRUE), TRUE)
             ha == Gap(cn, D1, Field(D1, v2, 0, TRUE), D2, Field(D2, v2, Num(D1), TRUE), TRUE)
         IN  RLe(RAbs(E(g, h)), ConnForm(cn, D1, ga, ha, TRUE))

VARIABLE k
Init == k \in 1..Count
Next == UNCHANGED k
Inv == ConnLaws(k)
=============================================================================
