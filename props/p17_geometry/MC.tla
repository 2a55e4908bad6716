-------------------------------- MODULE MC ----------------------------------
(* Every short row of values over every short axis.                                *)
EXTENDS Core, Json, TLC
CONSTANTS Vals, N, StepSet, Widths
VARIABLES v, d, w, circ
Init == v \in [1..N -> Vals] /\ d \in [1..(N - 1) -> StepSet] /\ w \in Widths /\ circ \in BOOLEAN
Next == UNCHANGED <<v, d, w, circ>>
Spec == Init /\ [][Next]_<<v, d, w, circ>>
X == Tup([i \in 1..N |-> SumTo(d, i - 1)])
Turn0 == SumTo(d, N - 1) + 2
S == 12
Hows == {"constant", "maximum", "minimum", "mean", "symmetric", "edge"} \cup (IF w < N THEN {"reflect"} ELSE {}) \cup (IF w <= N THEN {"wrap"} ELSE {})
Telescope == SumSeq(Diffs(v, circ)) = (IF circ THEN 0 ELSE v[N] - v[1])
AroundOnce == circ => SumSeq(Steps(X, TRUE, Turn0)) = Turn0
G(vv, x) == LET s == Steps(x, FALSE, 0)
                e == Diffs(vv, FALSE) IN Tup([i \in 1..(N - 1) |-> Rate(e[i], s[i], S)])
(* the stored direction of an axis does not matter                                    *)
Directionless == LET a == Tup(ToPoints(G(v, X), Tup(Steps(X, FALSE, 0))))
                     b == Tup(ToPoints(G(Turn(v), Turn(X)), Tup(Steps(Turn(X), FALSE, 0))))
                 IN \A i \in 1..N : Near(a[i], b[N + 1 - i], 1)
Plane == LET g == G([i \in 1..N |-> 5 + 3 * X[i]], X) IN \A i \in 1..N : ToPoints(g, Steps(X, FALSE, 0))[i] = 3 * S
RoundTrip == \A h \in {y \in Hows : w <= N} : Unpad(Tup(Pad(v, w, h)), w) = v
Bounded == \A h \in Hows \ {"constant"} : w <= N => LET p == Tup(Pad(v, w, h))
   IN \A i \in 1..(N + 2 * w) : p[i] >= SetMin(Range1(v)) /\ p[i] <= SetMax(Range1(v))
AxisRoundTrip == EvenSteps(X) => EvenSteps(PadAxis(X, w)) /\ Unpad(PadAxis(X, w), w) = X
Emit == PrintT("CASE " \o ToJson([v |-> v, d |-> d, w |-> w, circ |-> circ]))
=============================================================================
