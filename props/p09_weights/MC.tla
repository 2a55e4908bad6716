-------------------------------- MODULE MC ----------------------------------
(* Sets of default and dictionary weights, grown one input at a time.          *)
EXTENDS Core, Json, TLC
CONSTANTS MaxN, MaxW
VARIABLES n, y0, yn, c10, wd
vars == <<n, y0, yn, c10, wd>>
Init == n = 1 /\ y0 \in 0..MaxW /\ yn \in 0..MaxW /\ c10 \in {1, 3, 5, 10} /\ wd \in 1..MaxW
Next == n < MaxN /\ n' = n + 1 /\ UNCHANGED <<y0, yn, c10, wd>>
Spec == Init /\ [][Next]_vars
Sound == y0 + yn > 0
SumsToOne(w) == Near(SumSeq(w), S, Len(w))
LinearOk == Sound => /\ SumsToOne(Linear(y0, yn, n))
                     /\ \A i \in 1..(n - 1) : (y0 <= yn => Linear(y0, yn, n)[i] <= Linear(y0, yn, n)[i + 1])
                     /\ \A i \in 1..n : Linear(y0, yn, n)[i] >= 0
LinearReversed == Sound => \A i \in 1..n : Near(Linear(y0, yn, n)[i], Linear(yn, y0, n)[n + 1 - i], 1)
NonLinearOk == /\ SumsToOne(NonLinear(c10, n))
               /\ \A i \in 1..(n - 1) : Near(NonLinear(c10, n)[i + 1] * 10, NonLinear(c10, n)[i] * c10, 20)
TriangularOk == LET w == Triangular([i \in 1..n |-> i - 1], n \div 2, wd)
                IN SumsToOne(w) /\ \A i \in 1..n : w[i] <= w[n \div 2 + 1]
Emit == PrintT("CASE " \o ToJson([n |-> n, y0 |-> y0, yn |-> yn, c10 |-> c10, wd |-> wd]))
=============================================================================
