--------------------------------- MODULE MCb ---------------------------------
(* Radar scans arrive one by one; what fell between any two of them.               *)
EXTENDS Core, Json, TLC
CONSTANTS N, Rates, Start
VARIABLES r, dt
WithMask == {0, 1, 4, Masked}
Init == r = <<>> /\ dt \in {1, 5}
Next == Len(r) < N /\ \E v \in Rates : r' = Append(r, <<v>>) /\ dt' = dt
Spec == Init /\ [][Next]_<<r, dt>>
T == Tup([k \in 1..Len(r) |-> Start + dt * (k - 1)])
Steps == 1..Len(r)
Sum(a, b) == Trap(r, 1, a, b)
Additive == \A a \in Steps : \A b \in Steps : \A c \in Steps : (a <= b /\ b <= c /\ IsNum(Sum(a, c))) => Sum(a, c) = Sum(a, b) + Sum(b, c)
Grows == \A a \in Steps : \A b \in Steps : (a <= b /\ IsNum(Sum(a, b))) => Sum(a, b) >= 0
Holes == \A a \in Steps : \A b \in Steps : a < b => (IsNum(Sum(a, b)) <=> \A k \in a..b : IsNum(r[k][1]))
Steady == \A a \in Steps : \A b \in Steps : (a < b /\ (\A k \in a..b : r[k] = r[a]) /\ IsNum(r[a][1])) => Sum(a, b) = 2 * (b - a) * r[a][1]
Complete == Len(r) >= 2 => \A e \in Steps : \A p \in 1..(Len(r) - 1) : Whole(T, T[e], dt * p) <=> e - p >= 1
Ordered == Sorted(T) /\ (Len(r) >= 2 => Even(T))
Emit == Len(r) = N => PrintT("CASE " \o ToJson([rates |-> r, dt |-> dt]))
===============================================================================
