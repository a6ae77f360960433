------------------------------ MODULE RatSelf ------------------------------
(* The BigInteger overrides of Rat agree with the TLA+ definitions (module RatDef is the text of Rat under
   another name, hence not overridden) on all small arguments. *)
EXTENDS Rat, TLC, FiniteSets
D == INSTANCE RatDef

Pairs == {<<n, d>> : n \in -3..3, d \in {-4, -1, 1, 2, 3}}
Mats(r, c) == {[i \in 1..r |-> [j \in 1..c |-> <<((i * k + j * l) % 7) - 3, ((i + j * k) % 3) + 1>>]]
                 : k \in 1..5, l \in 0..2}
E(A) == Mat([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> R(A[i][j])]])
N(A) == D!Mat(A)

ASSUME Scalars ==
  \A x \in Pairs, y \in Pairs :
     LET dx == D!R(x) dy == D!R(y) IN
     /\ R(D!RAdd(dx, dy)) = RAdd(R(x), R(y))
     /\ R(D!RSub(dx, dy)) = RSub(R(x), R(y))
     /\ R(D!RMul(dx, dy)) = RMul(R(x), R(y))
     /\ D!RLe(dx, dy) = RLe(R(x), R(y))
     /\ D!RLt(dx, dy) = RLt(R(x), R(y))
     /\ (y[1] # 0 => R(D!RDiv(dx, dy)) = RDiv(R(x), R(y)))
ASSUME Matrices ==
  \A A \in Mats(2, 3), B \in Mats(3, 2), C \in Mats(3, 3) :
     /\ E(D!MAdd(N(A), N(C))) = MAdd(E(A), E(C))
     /\ E(D!MSub(N(B), N(A))) = MSub(E(B), E(A))
     /\ E(D!MMul(N(A), N(B))) = MMul(E(A), E(B))
     /\ E(D!MMul(N(A), N(C))) = MMul(E(A), E(C))
     /\ E(D!MTr(N(A))) = MTr(E(A))
     /\ E(D!MAbs(N(A))) = MAbs(E(A))
     /\ E(D!MHad(N(A), N(D!MTr(B)))) = MHad(E(A), MTr(E(B)))
     /\ R(D!MDot(N(A), N(D!MTr(B)))) = MDot(E(A), MTr(E(B)))
     /\ E(D!MScale(D!R(<<-3, 2>>), N(A))) = MScale(R("-3/2"), E(A))
     /\ MGet(E(A), 2, 3) = R(D!MGet(N(A), 2, 3)) /\ MRows(E(A)) = 2 /\ MCols(E(A)) = 3
ASSUME Polynomials ==
  \A A \in Mats(2, 3), B \in Mats(3, 2) :
     /\ E(D!PMul(N(A), N(B))) = PMul(E(A), E(B))
     /\ E(D!PDx(N(B))) = PDx(E(B)) /\ E(D!PDy(N(B))) = PDy(E(B))
     /\ E(D!PDx(D!PDx(N(A)))) = PDx(PDx(E(A)))
     /\ E(D!PInt(N(A), D!R(<<-1, 1>>), D!R(<<1, 2>>), D!R(<<0, 1>>), D!R(<<2, 1>>))) = PInt(E(A), -1, R("1/2"), R("0"), 2)
     /\ E(D!PEval(N(B), D!R(<<-1, 2>>), D!R(<<2, 1>>))) = PEval(E(B), R("-0.5"), R("4/2"))
ASSUME Texts ==
  /\ R("1.25e-3") = R(<<1, 800>>) /\ R("-7") = R(-7) /\ R("6/-4") = R(<<-3, 2>>) /\ R("1e2") = R(100)
  /\ IsNum("nan") = FALSE /\ IsNum("inf") = FALSE /\ IsNum("1/0") = FALSE /\ IsNum("-1.5E+10") /\ IsNum(3)
  /\ ~IsNum("") /\ ~IsNum(<<1, 2>>)

VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
