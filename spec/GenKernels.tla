----------------------------- MODULE GenKernels -----------------------------
EXTENDS Kernels, Json
CONSTANTS Seed, Count, Prop
\* number of points asked for, and entries of the two arrays
NoRule == << <<0, 4, 4>>, <<1, 4, 4>>, <<65, 80, 80>>, <<100, 100, 100>>, <<-3, 4, 4>>, <<5, 4, 5>>, <<5, 5, 4>>, <<64, 63, 64>>, <<2, 2, 1>>, <<7, 0, 7>>,
             <<2, 2, 2>>, <<64, 64, 64>>, <<5, 7, 6>>, <<17, 17, 17>> >>
Cases == CASE Prop = "C01" -> Count [] Prop = "C02" -> 6 * Count [] Prop = "C03" -> 63 [] Prop = "C20" -> Len(NoRule)
Case(k) == CASE Prop = "C01" -> <<BasisEvent(Seed, k, 8)>>
             [] Prop = "C02" -> <<IntegralEvent(Seed, (k - 1) \div 6, 1 + (k % 6))>>
             [] Prop = "C20" -> << [op |-> "bad", what |-> "norule", call |-> "", form |-> "", args |-> NoRule[k]] >>
             [] Prop = "C03" -> <<[op |-> "rule", n |-> k + 1]>>
VARIABLE k
Init == k \in 1..Cases
Next == UNCHANGED k
Out == PrintT(<<"CASE", ToJson([id |-> k, ev |-> Case(k)])>>)
=============================================================================
