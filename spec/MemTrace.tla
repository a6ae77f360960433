------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* Memory: no call of any behaviour reads or writes outside the arrays it  *)
(* uses, whatever the numbers of terms, of integration points, of points   *)
(* of a field, of worker threads, and wherever the result is placed.  The  *)
(* recorded calls come from a build that reports every access outside an   *)
(* allocation; e.obs.mem is that report, empty if there was none.  A call  *)
(* that reports one ends the behaviour.                                    *)
(***************************************************************************)
EXTENDS Base, Json, TLC

Traces == JsonDeserialize("traces.json")
VARIABLES t, l, alive, bad

InBounds(e) == e.obs.mem = ""
Init == /\ t \in 1..Len(Traces)
        /\ l = 0
        /\ alive = TRUE
        /\ bad = <<>>
Next == /\ alive
        /\ l < Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l + 1] IN
           /\ bad' = IF InBounds(e) THEN <<>> ELSE << <<"outside of its arrays", e.op \o ": " \o e.obs.mem, "">> >>
           /\ alive' = InBounds(e)
        /\ l' = l + 1
        /\ t' = t
Report == bad = <<>> \/ PrintT(<<"BAD", ToJson([id |-> Traces[t].id, l |-> l, bad |-> bad])>>)
=============================================================================
