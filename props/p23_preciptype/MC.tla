--------------------------------- MODULE MC ----------------------------------
(* Rain and snow amounts are laid down cell by cell over a small field.            *)
EXTENDS Core, Json, TLC
CONSTANTS N, NX, Amounts
VARIABLES r, s
Amounts3 == {0, 1, 3}
Init == r = <<>> /\ s = <<>>
Next == Len(r) < N /\ \E a \in Amounts : \E b \in Amounts : r' = Append(r, a) /\ s' = Append(s, b)
Spec == Init /\ [][Next]_<<r, s>>
W == {i \in 1..Len(r) : Wet(r, s, i)}
Bounded == \A i \in W : Frac(r, s, i) \in 0..One /\ (r[i] = 0 <=> Frac(r, s, i) = One) /\ (s[i] = 0 <=> Frac(r, s, i) = 0)
Mirror == \A i \in W : Abs(Frac(r, s, i) + Frac(s, r, i) - One) <= 1
Twice == LET d(q) == Tup([i \in 1..Len(q) |-> 2 * q[i]]) IN \A i \in W : Frac(r, s, i) = Frac(d(r), d(s), i)
OwnNearest == \A i \in W : NearestWet(r, s, i, NX) = {i}
SomeNearest == W # {} => \A i \in 1..Len(r) : NearestWet(r, s, i, NX) # {}
OnePhase == \A i \in W : \A k \in {"rain", "snow"} : (Phase(Frac(r, s, i) \div 100) = k) => Frac(r, s, i) \div 100 <= 100 \/ Frac(r, s, i) \div 100 >= 9900
Shared == \A i \in 1..Len(r) : \A a \in 0..1 : \A b \in 0..(1 - a) : Part(r[i], a, b) + Part(r[i], b, a) = 2 * r[i] /\ Part(r[i], a, b) >= 0
Whole == \A i \in W : Convective(r[i], s[i]) = Frac(s, r, i)
Emit == Len(r) = N => PrintT("CASE " \o ToJson([r |-> r, s |-> s, nx |-> NX]))
===============================================================================
