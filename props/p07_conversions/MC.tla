-------------------------------- MODULE MC ----------------------------------
(* A distribution taken through conversions in any order.                     *)
EXTENDS Core, Json
CONSTANTS T3
VARIABLES c, rel, hist
vars == <<c, rel, hist>>
T == <<0, 10, 40>>
P == {0, 5, 10, 20}
Init == /\ c \in {x \in [1..3 -> P] : Mono(x)}
        /\ rel \in DOMAIN Inverse
        /\ hist = <<>>
Stored(cc, r) == Below(cc, IsAbove(r))       \* the probabilities held by the cube
Invert == /\ Len(hist) < T3
          /\ rel' = Inverse[rel]
          /\ hist' = Append(hist, "invert")
          /\ UNCHANGED c
Next == Invert
Spec == Init /\ [][Next]_vars
InvolutionOnProbabilities == Below(Stored(c, rel), IsAbove(rel)) = c
TwiceIsIdentity == \A r \in DOMAIN Inverse : Inverse[Inverse[r]] = r /\ IsAbove(Inverse[r]) = ~IsAbove(r)
PartitionSumsToOne == c[1] + Between(T, Stored(c, rel), IsAbove(rel), 0, 10)
                           + Between(T, Stored(c, rel), IsAbove(rel), 10, 40) + (U - c[3]) = U
QuantileMonotone == \A p \in 0..100 : p < 100 =>
   Quantile(WithEnds(T, -100, 200), CdfEnds(c), p, 1)[1] <= Quantile(WithEnds(T, -100, 200), CdfEnds(c), p + 1, 1)[1]
QuantileInverse == \A i \in 1..3 : LET q == Quantile(WithEnds(T, -100, 200), CdfEnds(c), 5 * c[i], 1)
                                   IN q[1] <= T[i] /\ q[2] >= T[i]
ExpectedBetween == Expected2U(T, c) >= 2 * U * T[1] /\ Expected2U(T, c) <= 2 * U * T[3]
Emit == PrintT("CASE " \o ToJson([c |-> c, rel |-> rel, n |-> Len(hist)]))
=============================================================================
