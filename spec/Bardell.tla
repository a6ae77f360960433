------------------------------ MODULE Bardell ------------------------------
(***************************************************************************)
(* Approximation functions on [-1, 1]: four cubic Hermite functions scaled *)
(* by the flags <<x1t, x1r, x2t, x2r>> (translation and rotation of edges  *)
(* xi = -1 and xi = +1) followed by the hierarchical functions in          *)
(* Rodrigues form.  Term i = 1 is the first one.                           *)
(***************************************************************************)
EXTENDS Rat, Sequences, Integers

MAXTERMS == 30

RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN R(1) ELSE RMul(n, Fact(n - 1))
RECURSIVE DFact(_)
DFact(n) == IF n <= 1 THEN R(1) ELSE RMul(n, DFact(n - 2))
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN R(1) ELSE RMul(2, Pow2(n - 1))

\* Coefficient of xi^e in hierarchical function i >= 5: with e = i - 2n - 1,
\*    (-1)^n (2i - 2n - 7)!! / (2^n n! e!)
HierCoef(i, e) ==
  IF e > i - 1 \/ (i - 1 - e) % 2 # 0 THEN R(0)
  ELSE LET n == (i - 1 - e) \div 2
           v == RDiv(DFact(2*i - 2*n - 7), RMul(Pow2(n), RMul(Fact(n), Fact(e))))
       IN  IF n % 2 = 0 THEN v ELSE RSub(0, v)

Hermite == << <<"1/2", "-3/4", "0", "1/4">>,
              <<"1/8", "-1/8", "-1/8", "1/8">>,
              <<"1/2", "3/4", "0", "-1/4">>,
              <<"-1/8", "-1/8", "1/8", "1/8">> >>

\* Row i holds the coefficients of term i (unit flags), degree 0 .. MAXTERMS - 1.  Evaluated once by TLC.
BaseTable == Mat([i \in 1..MAXTERMS |-> [k \in 1..MAXTERMS |->
                IF i <= 4 THEN (IF k <= 4 THEN Hermite[i][k] ELSE 0)
                ELSE HierCoef(i, k - 1)]])

Deg(m) == IF m < 4 THEN 3 ELSE m - 1

\* Coefficients of the first m terms with flags fl (texts or rationals): an m x (Deg(m)+1) matrix.
Basis(fl, m) ==
  Mat([i \in 1..m |-> [k \in 1..(Deg(m) + 1) |->
     IF i <= 4 THEN (IF k <= 4 THEN RMul(R(Hermite[i][k]), R(fl[i])) ELSE R(0))
     ELSE MGet(BaseTable, i, k)]])

\* d-th derivative of every row.
RECURSIVE BasisD(_, _)
BasisD(B, d) == IF d = 0 THEN B ELSE BasisD(PDy(B), d - 1)

\* Powers 1, x, x^2, ... as a column of n entries.
Powers(n, x) ==
  LET RECURSIVE P(_)
      P(k) == IF k = 0 THEN <<R(1)>> ELSE LET q == P(k - 1) IN Append(q, RMul(q[k], x))
      q == P(n - 1)
  IN  Mat([k \in 1..n |-> <<q[k]>>])

\* Values of all terms (column) at x, and the sum of the absolute values of the monomials (error scale).
BasisAt(B, x) == MMul(B, Powers(MCols(B), x))
BasisAbsAt(B, x) == MMul(MAbs(B), MAbs(Powers(MCols(B), x)))

\* Moment matrix H[i][j] = integral of xi^(i-1) xi^(j-1) over [p, q]
Moments(ni, nj, p, q) ==
  LET n == ni + nj - 1
      pp == Powers(n + 1, p)
      pq == Powers(n + 1, q)
      mom == [k \in 1..n |-> RDiv(RSub(MGet(pq, k + 1, 1), MGet(pp, k + 1, 1)), k)]
      col == Mat([k \in 1..n |-> <<mom[k]>>])
  IN  Mat([i \in 1..ni |-> [j \in 1..nj |-> MGet(col, i + j - 1, 1)]])

\* All integrals over [p, q] of term i of A times term j of B.
Gram(A, B, p, q) == MMul(MMul(A, Moments(MCols(A), MCols(B), p, q)), MTr(B))

-----------------------------------------------------------------------------
(* Laws of the definition, checked by TLC (BardellSelf.cfg). *)
ONES == <<1, 1, 1, 1>>
Full == Basis(ONES, MAXTERMS)
ValAt(d, i, x) == MGet(BasisAt(BasisD(Full, d), x), i, 1)

\* Legendre polynomials by Bonnet's recursion, an independent definition.
RECURSIVE LegendreP(_)
LegendreP(n) == IF n = 0 THEN Mat(<<<<1>>>>)
                ELSE IF n = 1 THEN Mat(<<<<0, 1>>>>)
                ELSE MScale(RDiv(1, n), MSub(MScale(2*n - 1, PMul(Mat(<<<<0, 1>>>>), LegendreP(n - 1))),
                                             MScale(n - 1, LegendreP(n - 2))))
RowPoly(M, i) == Mat(<<[k \in 1..MCols(M) |-> MGet(M, i, k)]>>)
IsZero(M) == MDot(M, M) = R(0)

LawHermite ==      \* edge values and slopes of the four cubic functions
  /\ \A i \in 1..4 : ValAt(0, i, R(-1)) = R(IF i = 1 THEN 1 ELSE 0)
  /\ \A i \in 1..4 : ValAt(0, i, R(1)) = R(IF i = 3 THEN 1 ELSE 0)
  /\ \A i \in 1..4 : ValAt(1, i, R(-1)) = R(IF i = 2 THEN "1/2" ELSE 0)
  /\ \A i \in 1..4 : ValAt(1, i, R(1)) = R(IF i = 4 THEN "1/2" ELSE 0)
LawEdges ==        \* higher terms vanish with their slope at both edges
  \A d \in 0..1, x \in {R(-1), R(1)} :
     LET v == BasisAt(BasisD(Full, d), x) IN \A i \in 5..MAXTERMS : MGet(v, i, 1) = R(0)
LawLegendre ==     \* the second derivative of term i >= 5 is the Legendre polynomial of degree i - 3
  LET D2 == BasisD(Full, 2) IN
  \A i \in 5..MAXTERMS : IsZero(MSub(RowPoly(D2, i), LegendreP(i - 3)))
LawParity ==       \* term i >= 5 has the parity of its degree
  \A i \in 5..MAXTERMS : \A k \in 1..MAXTERMS : (i - k) % 2 # 0 => MGet(Full, i, k) = R(0)
LawOrthogonal ==   \* hence second derivatives of higher terms are orthogonal, with the norm 2/(2n+1)
  LET G == Gram(BasisD(Full, 2), BasisD(Full, 2), R(-1), R(1)) IN
  \A i, j \in 5..MAXTERMS : MGet(G, i, j) = IF i = j THEN R(<<2, 2*i - 5>>) ELSE R(0)
LawByParts ==      \* integral f g' + f' g = [f g]
  LET G == Gram(Full, BasisD(Full, 1), R(-1), R(1))
      e1 == BasisAt(Full, R(1))
      e0 == BasisAt(Full, R(-1))
  IN  IsZero(MSub(MAdd(G, MTr(G)), MSub(MMul(e1, MTr(e1)), MMul(e0, MTr(e0)))))
Laws == LawHermite /\ LawEdges /\ LawLegendre /\ LawParity /\ LawOrthogonal /\ LawByParts
=============================================================================
