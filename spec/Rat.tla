-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational scalars, matrices and polynomials.                       *)
(*                                                                         *)
(* The definitions below give the meaning over pairs <<n, d>> of integers  *)
(* and tuples of rows.  TLC's integers have 32 bits, so java/Rat.java      *)
(* overrides the same operators with BigInteger arithmetic on an opaque    *)
(* value; RatSelf.tla compares the two on all small arguments.             *)
(*                                                                         *)
(* A polynomial in two variables (xi, eta) is the matrix P of its          *)
(* coefficients: P[i+1][j+1] is the coefficient of xi^i eta^j.  A vector   *)
(* is a matrix with one column.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
LOCAL Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
LOCAL Max2(x, y) == IF x < y THEN y ELSE x
LOCAL Norm(n, d) == LET s == IF d < 0 THEN -1 ELSE 1
                        g == Gcd(Abs(n), Abs(d))
                    IN  <<(s * n) \div g, (s * d) \div g>>
RECURSIVE SumR(_, _)

\* Is v the text of a (finite) number, "3/4", "-2", "1.25e-3" (or an integer)?
IsNum(v) == TRUE
\* The rational denoted by a pair.  The override also reads an integer n as <<n, 1>> (here and wherever a rational
\* is expected) and the text of a number.
R(v) == Norm(v[1], v[2])

RAdd(x, y) == Norm(x[1] * y[2] + y[1] * x[2], x[2] * y[2])
RSub(x, y) == Norm(x[1] * y[2] - y[1] * x[2], x[2] * y[2])
RMul(x, y) == Norm(x[1] * y[1], x[2] * y[2])
RDiv(x, y) == Norm(x[1] * y[2], x[2] * y[1])
RLe(x, y) == x[1] * y[2] <= y[1] * x[2]
RLt(x, y) == x[1] * y[2] <  y[1] * x[2]
RShow(x) == x                              \* text of a rational, for reports

SumR(n, f) == IF n = 0 THEN <<0, 1>> ELSE RAdd(SumR(n - 1, f), f[n])

\* Matrix from a tuple of rows of rationals, integers or texts.
Mat(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows[i]) |-> R(rows[i][j])]]
MRows(A) == Len(A)
MCols(A) == Len(A[1])
MGet(A, i, j) == A[i][j]
LOCAL At(A, i, j) == IF i <= Len(A) /\ j <= Len(A[1]) THEN A[i][j] ELSE <<0, 1>>

\* Sum and difference; the smaller operand is extended by zeros.
MAdd(A, B) == [i \in 1..Max2(Len(A), Len(B)) |->
                 [j \in 1..Max2(Len(A[1]), Len(B[1])) |-> RAdd(At(A, i, j), At(B, i, j))]]
MSub(A, B) == [i \in 1..Max2(Len(A), Len(B)) |->
                 [j \in 1..Max2(Len(A[1]), Len(B[1])) |-> RSub(At(A, i, j), At(B, i, j))]]
MScale(s, A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> RMul(s, A[i][j])]]
MMul(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(B[1]) |->
                 SumR(Len(B), [k \in 1..Len(B) |-> RMul(A[i][k], B[k][j])])]]
MTr(A) == [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]]
\* Sum of the entrywise products.
MDot(A, B) == SumR(Len(A), [i \in 1..Len(A) |->
                 SumR(Len(A[1]), [j \in 1..Len(A[1]) |-> RMul(A[i][j], B[i][j])])])
MHad(A, B) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> RMul(A[i][j], B[i][j])]]   \* entrywise product
MAbs(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> <<Abs(A[i][j][1]), A[i][j][2]>>]]

\* Product of two polynomials.
PMul(A, B) ==
  LET r == Len(A) + Len(B) - 1
      c == Len(A[1]) + Len(B[1]) - 1
      term(i, j, k) == SumR(Len(A[1]), [l \in 1..Len(A[1]) |->
           IF i - k + 1 \in 1..Len(B) /\ j - l + 1 \in 1..Len(B[1])
           THEN RMul(A[k][l], B[i - k + 1][j - l + 1]) ELSE <<0, 1>>])
  IN  [i \in 1..r |-> [j \in 1..c |-> SumR(Len(A), [k \in 1..Len(A) |-> term(i, j, k)])]]
\* Derivatives along xi and eta.
PDx(A) == IF Len(A) = 1 THEN [i \in 1..1 |-> [j \in 1..Len(A[1]) |-> <<0, 1>>]]
          ELSE [i \in 1..(Len(A) - 1) |-> [j \in 1..Len(A[1]) |-> RMul(<<i, 1>>, A[i + 1][j])]]
PDy(A) == MTr(PDx(MTr(A)))

RECURSIVE Pow(_, _)
LOCAL Pow(x, k) == IF k = 0 THEN <<1, 1>> ELSE RMul(x, Pow(x, k - 1))
\* Integral of a polynomial over [x1, x2] x [y1, y2], and its value at (x, y): 1x1 matrices.
LOCAL Mom(k, p, q) == RDiv(RSub(Pow(q, k), Pow(p, k)), <<k, 1>>)
PInt(A, x1, x2, y1, y2) ==
  <<<<SumR(Len(A), [i \in 1..Len(A) |-> SumR(Len(A[1]), [j \in 1..Len(A[1]) |->
        RMul(A[i][j], RMul(Mom(i, x1, x2), Mom(j, y1, y2)))])])>>>>
PEval(A, x, y) ==
  <<<<SumR(Len(A), [i \in 1..Len(A) |-> SumR(Len(A[1]), [j \in 1..Len(A[1]) |->
        RMul(A[i][j], RMul(Pow(x, i - 1), Pow(y, j - 1)))])])>>>>
=============================================================================
