-------------------------------- MODULE MCb ---------------------------------
(* Dealing one value at a time: the smallest value not yet dealt goes to some *)
(* member whose raw value is least among those not yet served.                *)
EXTENDS Core, Json
CONSTANTS NR, NP
VARIABLES raw, cal, out, served
vars == <<raw, cal, out, served>>
R == RawOf(raw, NP)
Init == /\ raw \in [1..NR -> {0, 1, 2}]
        /\ cal \in {s \in [1..NP -> {10, 20, 30}] : \A i \in 1..(NP - 1) : s[i] <= s[i + 1]}
        /\ out = [i \in 1..NP |-> 0] /\ served = {}
Deal == \E i \in (1..NP) \ served :
   /\ \A j \in (1..NP) \ served : R[i] <= R[j]
   /\ out' = [out EXCEPT ![i] = cal[Cardinality(served) + 1]]
   /\ served' = served \cup {i}
   /\ UNCHANGED <<raw, cal>>
Next == Deal
Spec == Init /\ [][Next]_vars
Done == served = 1..NP
DealtAll == Done => IsDeal(out, cal)
OrderFollowsRaw == Done => Follows(out, R)
(* Any deal that follows the raw order can be reached by these steps.         *)
Characterised == Done => \A i, j \in 1..NP : out[i] < out[j] => R[i] <= R[j]
Emit == served = {} => PrintT("CASE " \o ToJson([raw |-> raw, cal |-> cal]))
=============================================================================
