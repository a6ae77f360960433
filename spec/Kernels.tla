------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* One-dimensional building blocks (properties C01, C02, C03): what a call *)
(* of the basis functions, of a closed-form integral and of the quadrature *)
(* rule must return, and the cases that are tried.                         *)
(***************************************************************************)
EXTENDS Base, Bardell

-----------------------------------------------------------------------------
(* C01 *)
BasisClauses(e) ==
  LET B == Basis(e.fl, MAXTERMS)
      Der == <<B, BasisD(B, 1), BasisD(B, 2)>>
      Point(d, k) ==
        LET x == R(e.xs[k])
            v == BasisAt(Der[d], x)
            s == BasisAbsAt(Der[d], x)
            Bad(which, got, i) ==
              LET tol == RAdd(RMul(Pow10(-13), MGet(s, i, 1)), Pow10(-15)) IN
              IF Near(got, MGet(v, i, 1), tol) THEN <<>>
              ELSE Fail(which \o " d" \o ToString(d - 1) \o " i=" \o ToString(i - 1) \o " x=" \o e.xs[k], got, MGet(v, i, 1))
        IN  Keep([i \in 1..MAXTERMS |-> Bad("term", e.obs.one[d][k][i], i)])
            \o Keep([i \in 1..MAXTERMS |-> Bad("vector", e.obs.vec[d][k][i], i)])
  IN  Flat([q \in 1..(3 * Len(e.xs)) |-> Point(1 + ((q - 1) % 3), 1 + (q - 1) \div 3)])

FlagPool == <<"0", "1", "1", "0.5", "-0.75", "2", "0.3">>
FlagSet(seed, k, s) ==
  CASE k % 5 = 0 -> <<"1", "1", "1", "1">>
    [] OTHER -> [i \in 1..4 |-> PickOf(FlagPool, seed, k, s + i)]
BasisEvent(seed, k, n) ==
  [op |-> "basis", fl |-> FlagSet(seed, k, 1),
   xs |-> [i \in 1..n |-> IF i = 1 THEN PickOf(<<"-1", "1", "0">>, seed, k, 7)
                          ELSE IF i = 2 THEN PickOf(<<"0.9999", "-0.9999", "0.3", "-0.7", "1", "-1">>, seed, k, 8)
                          ELSE ToString(Range(-1024, 1024, seed, k, 10 + i)) \o "/1024"]]

-----------------------------------------------------------------------------
(* C02 *)
Kinds == <<"ff", "ffp", "ffpp", "fpfp", "fpfpp", "fppfpp">>
KindA == <<0, 0, 0, 1, 1, 2>>
KindB == <<0, 1, 2, 1, 2, 2>>
KindNo(s) == CHOOSE i \in 1..6 : Kinds[i] = s
IntegralClauses(e) ==
  LET q == KindNo(e.kind)
      A == BasisD(Basis(e.fa, MAXTERMS), KindA[q])
      B == BasisD(Basis(e.fb, MAXTERMS), KindB[q])
      G == Gram(A, B, R(-1), R(1))
      da == Gram(A, A, R(-1), R(1))
      db == Gram(B, B, R(-1), R(1))
      Bad(i, j) ==
        LET v == MGet(G, i, j)
            \* |<f, g>| <= (|f|^2 + |g|^2)/2, hence the absolute part of the tolerance
            tol == RAdd(RMul(Pow10(-11), RAbs(v)),
                        RMul(Pow10(-16), RAdd(MGet(da, i, i), MGet(db, j, j))))
        IN  IF Near(e.obs.val[i][j], v, tol) THEN <<>>
            ELSE Fail("integral " \o e.kind \o " i=" \o ToString(i - 1) \o " j=" \o ToString(j - 1), e.obs.val[i][j], v)
  IN  Keep([p \in 1..(MAXTERMS * MAXTERMS) |-> Bad(1 + (p - 1) \div MAXTERMS, 1 + ((p - 1) % MAXTERMS))])

IntegralEvent(seed, k, q) ==
  [op |-> "integrals", kind |-> Kinds[q], fa |-> FlagSet(seed, k, 20), fb |-> FlagSet(seed, k, 40)]

-----------------------------------------------------------------------------
(* C03 *)
RuleClauses(e) ==
  LET n == e.n
      ok == Len(e.obs.points) = n /\ Len(e.obs.weights) = n
            /\ \A i \in 1..n : IsNum(e.obs.points[i]) /\ IsNum(e.obs.weights[i])
      x == [i \in 1..n |-> R(e.obs.points[i])]
      w == [i \in 1..n |-> R(e.obs.weights[i])]
      X == Mat(<<x>>)
      U == Mat(<<[i \in 1..n |-> 1]>>)
      RECURSIVE Mom(_, _)
      \* moments k, k+1, ... 2n - 1: sum of w x^k against the integral of x^k
      Mom(k, wx) ==
        IF k > 2 * n - 1 THEN <<>>
        ELSE LET s == MDot(wx, U)
                 v == IF k % 2 = 0 THEN R(<<2, k + 1>>) ELSE R(0)
                 d == RAbs(RSub(s, v))
             IN  (IF RLe(d, R("2e-13")) THEN <<>> ELSE <<Fail("degree " \o ToString(k) \o " n=" \o ToString(n), RShow(s), v)>>)
                 \o Mom(k + 1, MHad(wx, X))
  IN  IF ~ok THEN <<FailT("rule is not n finite points and weights", ToString(n))>>
      ELSE IfSeq(~e.obs.guards, FailT("wrote outside the arrays", ToString(n)))
        \o IfSeq(\E i \in 1..n : ~(RLt(R(-1), x[i]) /\ RLt(x[i], R(1))), FailT("point outside (-1, 1)", ToString(n)))
        \o IfSeq(\E i \in 1..n : ~RLt(R(0), w[i]), FailT("weight not positive", ToString(n)))
        \o IfSeq(\E i, j \in 1..n : i # j /\ RLe(RAbs(RSub(x[i], x[j])), R("1e-9")), FailT("points not distinct", ToString(n)))
        \o IfSeq(\E i \in 1..n : ~\E j \in 1..n : /\ RLe(RAbs(RAdd(x[i], x[j])), R("1e-14"))
                                                  /\ RLe(RAbs(RSub(w[i], w[j])), R("1e-14")), FailT("not symmetric", ToString(n)))
        \o Mom(0, Mat(<<w>>))
=============================================================================
