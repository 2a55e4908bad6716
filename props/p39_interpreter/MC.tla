---------------------------------- MODULE MC ----------------------------------
(* Faults creep into the description of a file one after another.                         *)
EXTENDS Core, Json, TLC
CONSTANTS N, Quick
VARIABLES d
Start == [kind : Kinds, place : {"grid", "spot"}, source : Sources, post : BOOLEAN, top : BOOLEAN, warn : {"none", "attribute", "method", "mode"}, faults : {{}}]
Init == d \in {x \in Start : Sensible(x) /\ (x.warn = "mode" => x.kind = "weather")}
Next == Cardinality(d.faults) < N /\ \E f \in Faults : CanHave(d, f) /\ f \notin d.faults /\ (\A g \in d.faults : Apart(f, g)) /\ d' = [d EXCEPT !.faults = @ \cup {f}]
Spec == Init /\ [][Next]_d
StaysRefused == [][Refused(d) => Refused(d')]_d
OrderOfFaults == \A f \in d.faults : CanHave(d, f)
Clean == [d EXCEPT !.faults = {}]
SameFacts == Said(d, TRUE) = Said(Clean, TRUE)
VerboseAddsSources == Handled(d.kind) => SelectSeq(Said(d, TRUE), LAMBDA x : x \in {Said(d, FALSE)[k] : k \in 1..Len(Said(d, FALSE))}) = Said(d, FALSE)
PostNeverHidden == (d.post /\ d.kind \in Standard) => \E k \in 1..Len(Said(d, FALSE)) : Said(d, FALSE)[k] = "It has undergone some significant post-processing"
WarningsAreNotFaults == Warned(d) => Refused(d) = (d.faults # {})
Emit == (Cardinality(d.faults) < 2 \/ ~d.post) => PrintT("CASE " \o ToJson(d))
===============================================================================
