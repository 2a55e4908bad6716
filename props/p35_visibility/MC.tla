---------------------------------- MODULE MC ----------------------------------
(* Fog thickens: visibility thresholds climbed one by one.                                *)
EXTENDS Core, Json, TLC
CONSTANTS Thresholds, Fulls, Starts, Ps
VARIABLES t, full, start, v, c
Init == t = SetMin(Thresholds) /\ full \in Fulls /\ start \in Starts /\ v \in Ps /\ c \in Ps
Next == \E u \in Thresholds : u > t /\ (\A w \in Thresholds : w <= t \/ w >= u) /\ t' = u /\ UNCHANGED <<full, start, v, c>>
Spec == Init /\ [][Next]_<<t, full, start, v, c>>
R == Raised(v, FALSE, c, FALSE, t, full, start)
Chance == R >= 0 /\ R <= 10000
NeverClearer == R >= v
Wholly == t >= full => R = Max2(v, c)
Mirrored == Raised(10000 - v, TRUE, c, FALSE, t, full, start) = 10000 - R /\ Raised(v, FALSE, 10000 - c, TRUE, t, full, start) = R
NoMoreThanEither == R <= Max2(v, c) \/ R <= v + 1
AtGround == t = 0 => Near(Scale(t, full, start), start, 1)
Climbs == [][Scale(t', full, start) >= Scale(t, full, start) - 1 \/ start > 10000]_<<t, full, start, v, c>>
Emit == PrintT("CASE " \o ToJson([t |-> t, full |-> full, start |-> start, v |-> v, c |-> c]))
===============================================================================
