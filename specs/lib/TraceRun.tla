------------------------------ MODULE TraceRun ------------------------------
(* Validation of a recorded trace against the specification, one event per   *)
(* step.  Judge(st, e) is the set of <<clause, holds>> for event e in the     *)
(* abstract state st; Step(st, e) is the abstract state after it.  Every      *)
(* behaviour is deterministic, and ends by printing a total verdict.          *)
EXTENDS Integers, Sequences, TLC, TraceKit
CONSTANTS Judge(_, _), Step(_, _), St0
VARIABLES l, st, fails

Init == l = 1 /\ st = St0 /\ fails = <<>>

Next ==
  /\ l <= Len(Events)
  /\ LET e   == Events[l]
         bad == Fail(Judge(st, e))
         nf  == IF bad = {} THEN fails ELSE Append(fails, [i |-> l, c |-> bad])
     IN /\ fails' = nf
        /\ st' = Step(st, e)
        /\ l' = l + 1
        /\ (l = Len(Events) => PrintT("VERDICT " \o ToJson(nf)))

Spec == Init /\ [][Next]_<<l, st, fails>>
=============================================================================
