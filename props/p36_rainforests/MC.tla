---------------------------------- MODULE MC ----------------------------------
(* Thresholds are added one by one, each with whatever chance its trees give.             *)
EXTENDS Core, Json, TLC
CONSTANTS Ps, N, Gaps
VARIABLES p, thr
SomeGaps == {10, 25}
Init == p = <<>> /\ thr = <<>>
Next == Len(p) < N /\ \E q \in Ps, g \in Gaps : p' = Append(p, q) /\ thr' = Append(thr, (IF thr = <<>> THEN 0 ELSE thr[Len(thr)]) + g)
Spec == Init /\ [][Next]_<<p, thr>>
D == Falling(p)
Ready == Len(p) > 0
Falls == \A k \in 2..Len(D) : D[k] <= D[k - 1]
KeepsFalling == (\A k \in 2..Len(p) : p[k] <= p[k - 1]) => D = [k \in 1..Len(p) |-> 2 * p[k]]
Within == \A k \in 1..Len(p) : D[k] >= 2 * SetMin(Range1(p)) /\ D[k] <= 2 * SetMax(Range1(p))
Once == Ready => Falling(D) = [k \in 1..Len(D) |-> 2 * D[k]]
AtThresholds == \A k \in 1..Len(p) : ChanceAt(D, thr, 0, thr[k]) = D[k]
FallsBetween == Ready => \A x \in 0..(thr[Len(thr)] + 5) : ChanceAt(D, thr, 0, x + 1) <= ChanceAt(D, thr, 0, x)
CertainBelow == Ready => ChanceAt(D, thr, 0, 0) = 20000 /\ ChanceAt(D, thr, 0, -5) = 20000
(* any tree of splits among S says the same of two values in one bin                      *)
SameBin == \A S \in SUBSET {1, 2, 4} : \A x, y \in 0..5 : Bin(S, x) = Bin(S, y) => \A s \in S : (x <= s) = (y <= s)
ASSUME SameBin
Emit == Len(p) = N => PrintT("CASE " \o ToJson([p |-> p, thr |-> thr]))
===============================================================================
