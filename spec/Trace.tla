------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Validation of recorded calls of the real code: every event is the step  *)
(* of Panels with the recorded arguments, and the recorded result must     *)
(* satisfy every clause the specification has for it.  The verdict is      *)
(* total: clauses that fail are collected and printed, nothing stops.      *)
(***************************************************************************)
EXTENDS Panels, Json

Traces == JsonDeserialize("traces.json")

VARIABLES t, l, st, bad

Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ st = Empty
        /\ bad = <<>>
Next == /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1] IN
           /\ bad' = First(Clauses(st, e), 5)
           /\ st' = Step(st, e)
        /\ l' = l + 1
        /\ t' = t
Report == bad = <<>> \/ PrintT(<<"BAD", ToJson([id |-> Traces[t].id, l |-> l, bad |-> bad])>>)
=============================================================================
