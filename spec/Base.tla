-------------------------------- MODULE Base --------------------------------
(***************************************************************************)
(* What every observation module needs: number texts, comparison of an     *)
(* observed number with an exact value within a tolerance, and the         *)
(* deterministic choices of the generators.                                *)
(***************************************************************************)
EXTENDS Rat, Sequences, Integers, TLC

Pow10(k) == R("1e" \o ToString(k))

\* The observed text is a finite number within tol of the exact value.
Near(text, exact, tol) ==
  IsNum(text) /\ LET d == RSub(R(text), exact) IN RLe(d, tol) /\ RLe(RSub(0, d), tol)
RAbs(x) == IF RLe(0, x) THEN x ELSE RSub(0, x)
RMax(x, y) == IF RLe(x, y) THEN y ELSE x
RMin(x, y) == IF RLe(x, y) THEN x ELSE y
RNeg(x) == RSub(0, x)
RSq(x) == RMul(x, x)
Half == R("1/2")

\* Components of the fields.
NamesUVW == <<"u", "v", "w", "phix", "phiy">>
NamesE == <<"exx", "eyy", "gxy", "kxx", "kyy", "kxy">>
NamesN == <<"Nxx", "Nyy", "Nxy", "Mxx", "Myy", "Mxy">>

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN R(0) ELSE RAdd(Head(s), RSumSeq(Tail(s)))

\* A named clause that fails is reported with what was seen and what was expected.
Fail(name, seen, want) == <<name, seen, RShow(want)>>
FailT(name, text) == <<name, text, "">>

IfSeq(c, s) == IF c THEN <<s>> ELSE <<>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Keep(s) == SelectSeq(s, LAMBDA x : x # <<>>)
First(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)

-----------------------------------------------------------------------------
(* Deterministic choices: a hash of <<seed, case, salt>>, all below 2^31. *)
HashStep(x, s) == (((x % 32749) * 32719) + ((s % 65536) * 7919) + 13) % 65521
Hash(seed, k, s) == HashStep(HashStep(HashStep(HashStep(17, seed), k), s), s + k)
PickOf(pool, seed, k, s) == pool[1 + (Hash(seed, k, s) % Len(pool))]
Range(lo, hi, seed, k, s) == lo + (Hash(seed, k, s) % (hi - lo + 1))
=============================================================================
