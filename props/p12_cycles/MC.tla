-------------------------------- MODULE MC ----------------------------------
(* Forecasts of successive cycles are collected, then lagged together.          *)
EXTENDS Core, Json, TLC
CONSTANTS MaxF, Nums, Cycles
VARIABLES fs
Init == fs = <<>>
RealSets == {s \in UNION {[1..n -> Nums] : n \in 1..2} : \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]}
Arrive == \E c \in Cycles : \E s \in RealSets : Len(fs) < MaxF /\ fs' = Append(fs, [frt |-> c, reals |-> s])
Next == Arrive
Spec == Init /\ [][Next]_fs
ms == [i \in 1..Len(fs) |-> fs[i].reals]
L == Lagged(ms)
Total == SumSeq([i \in 1..Len(ms) |-> Len(ms[i])])
(* every member once, under a number of its own, in ascending order             *)
AllKept == fs # <<>> => /\ Len(L) = Total
                        /\ {L[i].m : i \in 1..Len(L)} = Range1(Members(ms, 1))
Ascending == \A i \in 1..(Len(L) - 1) : L[i].r < L[i + 1].r
(* numbers already different are kept                                            *)
NumbersKept == Unique(Cat(ms)) => \A i \in 1..Len(L) : L[i].r = ms[L[i].m[1]][L[i].m[2]]
(* later cycles only shorten lead times                                          *)
Shorter == fs # <<>> => \A i \in 1..Len(fs) : Lead(<<100>>, <<Latest(fs)>>)[1] <= Lead(<<100>>, <<fs[i].frt>>)[1]
Emit == Len(fs) >= 2 => PrintT("CASE " \o ToJson([fs |-> fs]))
=============================================================================
