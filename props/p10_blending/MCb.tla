-------------------------------- MODULE MCb ---------------------------------
(* Mixtures of percentile forecasts.                                            *)
EXTENDS Core, Json, TLC
CONSTANTS MaxV
VARIABLES vs, w
vars == <<vs, w>>
P == <<20, 50, 80>>
Asc == {v \in [1..3 -> 0..MaxV] : v[1] <= v[2] /\ v[2] <= v[3]}
Init == vs = <<>> /\ w = <<>>
Next == Len(vs) < 2 /\ \E v \in Asc, x \in 1..2 : vs' = Append(vs, v) /\ w' = Append(w, x)
Spec == Init /\ [][Next]_vars
Some == Len(vs) > 0
Values == {vs[k][i] : k \in 1..Len(vs), i \in 1..3}
Rises == Some => \A x, y \in Values : x <= y => Mixture(vs, w, P, 1000 * x) <= Mixture(vs, w, P, 1000 * y)
Alone == Len(vs) = 1 => \A i \in 1..3 : AtPercentile(1000 * vs[1][i], P[i], vs, w, P)
Equal == (Len(vs) = 2 /\ vs[1] = vs[2]) => \A i \in 1..3 : AtPercentile(1000 * vs[1][i], P[i], vs, w, P)
Between0 == Len(vs) = 2 => \A i \in 1..3 :
   \A r \in {1000 * vs[1][i], 1000 * vs[2][i]} : r = 1000 * SetMin({vs[1][i], vs[2][i]}) => Mixture(vs, w, P, r) <= 1000 * P[3]
Emit == Len(vs) = 2 => PrintT("CASE " \o ToJson([vs |-> vs, w |-> w, ps |-> P]))
=============================================================================
