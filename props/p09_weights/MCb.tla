-------------------------------- MODULE MCb ---------------------------------
(* Spatial weights while points of the slices lose their data one by one.       *)
EXTENDS Core, Json, TLC
CONSTANTS NX, NY, W, FZ, MaxMasked
VARIABLES mask
Weights == <<1, 3, 2>>
K == Len(W)
Init == mask = [k \in 1..K |-> [p \in 1..(NX * NY) |-> FALSE]]
Masked0(m) == Cardinality({<<k, p>> \in (1..K) \X (1..(NX * NY)) : m[k][p]})
Next == /\ Masked0(mask) < MaxMasked
        /\ \E k \in 1..K, p \in 1..(NX * NY) : ~mask[k][p] /\ mask' = [mask EXCEPT ![k][p] = TRUE]
Spec == Init /\ [][Next]_mask
R == SpatialWeights(W, mask, NX, FZ)
P == 1..(NX * NY)
Total(p) == SumTo([k \in 1..K |-> R[k][p]], K)
NoWeightWhereMasked == \A k \in 1..K, p \in P : mask[k][p] => R[k][p] = 0
Bounded == \A k \in 1..K, p \in P : R[k][p] >= 0 /\ R[k][p] <= S + K
Covered == \A p \in P : Total(p) <= S + K
(* A slice with data everywhere makes up for the others wherever they fade.     *)
FullSliceMakesSumOne == (\E k \in 1..K : \A p \in P : ~mask[k][p]) => \A p \in P : Near(Total(p), S, K)
NoMaskIsPlain == (\A k \in 1..K, p \in P : ~mask[k][p]) => \A k \in 1..K, p \in P : R[k][p] = Normalised(W)[k]
Emit == PrintT("CASE " \o ToJson([mask |-> mask, w |-> W, nx |-> NX, ny |-> NY, fz |-> FZ]))
=============================================================================
