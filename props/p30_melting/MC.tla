---------------------------------- MODULE MC ----------------------------------
(* Ice falls through a column, level by level, gathering warmth until it has melted. *)
EXTENDS Core, Json, TLC
CONSTANTS Temps, Heights, Orogs, Lands
VARIABLES c, k, ws, sum
Vars == <<c, k, ws, sum>>
SomeTemps == {-300, -50, 40, 700}
MoreTemps == {-300, -50, 40, 300, 1500}
SomeHeights == <<2000, 1200, 600, 300, 100, 0>>
MoreHeights == <<2500, 1500, 1000, 600, 300, 100, 0>>
Init == \E o \in Orogs, l \in Lands, w \in Temps : c = [orog |-> o, land |-> l] /\ k = 1 /\ ws = <<w>> /\ sum = <<0>>
Fall == k < Len(Heights) /\ \E w \in Temps : /\ ws' = Append(ws, w) /\ k' = k + 1
                                             /\ sum' = Append(sum, sum[k] + RoundDiv((Pos(ws[k]) + Pos(w)) * (Heights[k] - Heights[k + 1]), 20))
                                             /\ UNCHANGED c
Next == Fall
Spec == Init /\ [][Next]_Vars
Here == SubSeq(Heights, 1, k)
Lowest5 == LET n == Min2(5, k) IN [j \in 1..n |-> k + 1 - j]
Col == [hs |-> Here, is |-> sum, orog |-> c.orog, land |-> c.land, highest |-> Heights[1],
        fh |-> Tup([j \in DOMAIN Lowest5 |-> Heights[Lowest5[j]] \div 10]), fw |-> Tup([j \in DOMAIN Lowest5 |-> ws[Lowest5[j]]])]
SumsAgree == sum = Integrals(Here, ws)
WarmthGathers == \A j \in 1..(k - 1) : sum[j] <= sum[j + 1]
SnowAboveRain == LET s == Level(Col, 900) r == Level(Col, 2025) IN (s # NaN /\ r # NaN) => s >= r - 20
RainAboveHail == LET s == Level(Col, 2025) r == Level(Col, 50000) IN (s # NaN /\ r # NaN) => s >= r - 20
CrossedMeansInside == \A t \in {900, 2025, 50000} : LET x == Crossing(Here, sum, c.orog, t) IN x # NaN => x >= c.orog + 10 * Heights[k] /\ x <= c.orog + 10 * Heights[1]
ReachedMeansFound == (k > 1) => \A t \in {900, 2025} : sum[k] >= t => Level(Col, t) # NaN
BelowGround == k > 1 => \A t \in {900, 2025} : (Extended(Col, t) /\ Level(Col, t) # NaN /\ (Slope(Col.fh, Col.fw) < -400)) => Level(Col, t) <= c.orog + 5 /\ Level(Col, t) >= c.orog - 20000
LandUnknown == (c.land /\ sum[k] < 900) => Level(Col, 900) = NaN
StonesGrow == k = 1 => \A v \in {-100, 0, 120, 500, 1250, 2000}, h \in {0, 300, 800, 2600, 6000} : Stone(v, h, 0) <= Stone(v + 50, h, 0) + 0 /\ Stone(v, h, 0) <= Stone(v, h + 500, 0)
StonesMelt == k = 1 => \A v \in {0, 500, 1250}, h \in {800, 2600, 6000}, w \in {3000, 3349, 3350, 3600, 4000, 4399} : Stone(v, h, w + 200) <= Stone(v, h, w)
NoHailWhenHigh == k = 1 => \A v \in {0, 1250}, h \in {800, 6000} : Stone(v, h, 4400) = 0 /\ Stone(v, h, 3349) = Stone(v, h, 0)
Emit == k = Len(Heights) => PrintT("CASE " \o ToJson([ws |-> ws, land |-> c.land, orog |-> c.orog]))
===============================================================================
