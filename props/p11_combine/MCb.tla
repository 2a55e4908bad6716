-------------------------------- MODULE MCb ---------------------------------
(* Periods are combined in groups, and the results combined again, until one   *)
(* remains: whatever the grouping, it covers all of them once.                  *)
EXTENDS Core, Json, TLC
CONSTANTS NP
VARIABLES items, log
Hour(i) == [c |-> [p |-> i, b |-> <<i - 1, i>>], v |-> i * i, n |-> 1]
Init == items = [i \in 1..NP |-> Hour(i)] /\ log = <<>>
Merge(S) == [c |-> Expanded([i \in 1..Len(S) |-> S[i].c]), v |-> SumSeq([i \in 1..Len(S) |-> S[i].v]),
             n |-> SumSeq([i \in 1..Len(S) |-> S[i].n])]
Group == \E a \in 1..Len(items) : \E b \in (a + 1)..Len(items) :
   /\ items' = SubSeq(items, 1, a - 1) \o <<Merge(SubSeq(items, a, b))>> \o SubSeq(items, b + 1, Len(items))
   /\ log' = Append(log, <<a, b>>)
Next == Group
Spec == Init /\ [][Next]_<<items, log>>
Covers == SumSeq([i \in 1..Len(items) |-> items[i].n]) = NP
Contiguous == \A i \in 1..(Len(items) - 1) : items[i].c.p = items[i + 1].c.b[1]
Lengths == \A i \in 1..Len(items) : items[i].c.b[2] - items[i].c.b[1] = items[i].n /\ items[i].c.p = items[i].c.b[2]
Total == Len(items) = 1 => items[1].v = SumTo([i \in 1..NP |-> i * i], NP)
Emit == Len(items) = 1 => PrintT("CASE " \o ToJson([groups |-> log, n |-> NP]))
=============================================================================
