---------------------------------- MODULE MCb ----------------------------------
(* The regression and the latitude thresholds over their ranges.                   *)
EXTENDS Core, Json, TLC
CONSTANTS Capes, Waters, Rains, Lifts
VARIABLES x
SomeLifts == {-60, -41, -40, -39, 0, 30}
Cins == {0, -50, -400}
Init == x \in [cape : Capes, li : SomeLifts, q : Waters, cin : Cins, a : Rains]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
P(y) == Regress(y.cape, y.li, y.q, y.cin, y.a)
Chance == P(x) \in 0..9500
MoreCape == \A k \in Capes : (x.cape > 0 /\ k >= x.cape) => P([x EXCEPT !.cape = k]) >= P(x) - 1
MoreRain == \A k \in Rains : (x.cape >= 100 /\ k >= x.a /\ ~LittleRain(x.a, x.q)) => P([x EXCEPT !.a = k]) >= P(x) - 1
MoreLift == \A k \in SomeLifts : (x.cape = 0 /\ k >= x.li) => P([x EXCEPT !.li = k]) >= P(x)
NoWater == x.q = 0 => P(x) = 0
Stable == x.cape = 0 /\ (x.li <= -40 \/ x.a = 0) => P(x) = 0
LatBetween == \A lat \in 0..90 : ByLat(lat, 350, 500) = ByLat(-lat, 350, 500) /\ ByLat(lat, 350, 500) \in 14000..20000 /\ ByLat(lat, 1, 4) \in 40..160
LatFalls == \A lat \in 0..89 : ByLat(lat + 1, 350, 500) <= ByLat(lat, 350, 500)
LnOk == \A n \in {2, 3, 5, 8, 100, 1000} : Abs(Ln(10000 * n) + Ln(20000) - Ln(20000 * n)) <= 6
Emit == PrintT("CASE " \o ToJson([reg |-> x]))
===============================================================================
