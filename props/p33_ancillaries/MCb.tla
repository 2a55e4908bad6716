---------------------------------- MODULE MCb ---------------------------------
(* A transect of terrain grows point by point; its smoothing coefficients.               *)
EXTENDS Core, Json, TLC
CONSTANTS Heights, Most
VARIABLES hs, ms
Init == hs = <<0>> /\ ms = <<0>>
Next == Len(hs) < Most /\ \E h \in Heights, m \in {0, 1} : hs' = Append(hs, h) /\ ms' = Append(ms, m)
Spec == Init /\ [][Next]_<<hs, ms>>
Gaps == 1..(Len(hs) - 1)
U(p) == [k \in Gaps |-> Steepness(hs[k + 1] - hs[k], p)]
Cs(p, a, b) == LET u == U(p) lo == SetMin(Range1(u)) hi == SetMax(Range1(u)) IN [k \in Gaps |-> Coefficient(u[k], lo, hi, a, b)]
Ready == Len(hs) > 2
Powers == {1, 2, 4}
WithinRange == Ready => \A p \in Powers : \A k \in Gaps : Cs(p, 5000, 0)[k] \in 0..5000 /\ Cs(p, 1000, 4000)[k] \in 1000..4000
SteeperSmoothsLess == Ready => \A p \in Powers : LET c == Cs(p, 5000, 0) IN \A j, k \in Gaps : Abs(hs[j + 1] - hs[j]) <= Abs(hs[k + 1] - hs[k]) => c[j] >= c[k]
EndsReached == Ready => \A p \in Powers : LET c == Cs(p, 5000, 0) IN (\E k \in Gaps : c[k] = 5000) /\ (U(p) # [k \in Gaps |-> U(p)[1]] => \E k \in Gaps : c[k] = 0)
SameBothWays == Ready => LET r == [k \in 1..Len(hs) |-> hs[Len(hs) + 1 - k]]
                             v == [k \in Gaps |-> Steepness(r[k + 1] - r[k], 2)] IN \A k \in Gaps : v[k] = U(2)[Len(hs) - k]
MaskSides == \A k \in Gaps : LET z(b, i) == Zeroed(ms[k], ms[k + 1], b, i) IN
   (z(TRUE, FALSE) => z(FALSE, FALSE) /\ z(FALSE, TRUE)) /\ (z(FALSE, FALSE) \/ z(FALSE, TRUE)) /\ (z(FALSE, FALSE) /\ z(FALSE, TRUE) => z(TRUE, FALSE))
Emit == Len(hs) = Most => PrintT("CASE " \o ToJson([hs |-> hs, ms |-> ms]))
===============================================================================
