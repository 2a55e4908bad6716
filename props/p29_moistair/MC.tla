---------------------------------- MODULE MC ----------------------------------
(* A parcel of air: it rises dry until saturated, then condenses on its way up.       *)
EXTENDS Core, Json, TLC
CONSTANTS Ts, Ps, Rhs, Vs, Drop, Lowest
VARIABLES c, t, p, phase
Vars == <<c, t, p, phase>>
Airs == [t : Ts, p : Ps, rh : Rhs, v : Vs]
Init == \E a \in Airs : c = a /\ t = a.t /\ p = a.p /\ phase = IF a.rh = 1000 THEN "base" ELSE "dry"
Q0 == Q(c.t, c.p, c.rh)
Next1 == Along(c.t, c.p, p - Drop)
RiseDry == phase = "dry" /\ p - Drop >= Lowest /\ Qs(Next1, p - Drop) > Q0 /\ Next1 > 23000
           /\ p' = p - Drop /\ t' = Next1 /\ UNCHANGED <<c, phase>>
Reach == phase = "dry" /\ p - Drop >= Lowest /\ Qs(Next1, p - Drop) <= Q0 /\ phase' = "base" /\ UNCHANGED <<c, t, p>>
RiseWet == phase \in {"base", "wet"} /\ p - Drop >= Lowest /\ Next1 > 20000
           /\ p' = p - Drop /\ t' = Condensed(Next1, p - Drop, Q0) /\ phase' = "wet" /\ UNCHANGED c
Next == RiseDry \/ Reach \/ RiseWet
Spec == Init /\ [][Next]_Vars
Here == phase \in {"base", "dry"} /\ t = c.t /\ p = c.p
SatGrows == Here => Qs(t, p) < Qs(t + 100, p) /\ Qs(t, p) <= Qs(t, p - Drop)
WetBulbBelow == Here => LET w == WetBulb(t, p, c.rh) IN w <= t + 1 /\ (c.rh = 1000 => Abs(w - t) <= 2) /\ (c.rh < 1000 => Qs(w, p) + 10 >= Q0) /\ WetBulbIs(w, t, p, c.rh, 4)
WetBulbWithMoisture == (Here /\ c.rh >= 200) => WetBulb(t, p, c.rh - 100) <= WetBulb(t, p, c.rh)
CoolsRising == p < c.p => t < c.t
DryReturns == phase = "dry" => Abs(Along(t, p, c.p) - c.t) <= 6
Unsaturated == phase = "dry" => Qs(t, p) + 60 >= Q0
Saturated == phase = "wet" => Qs(t, p) <= Q0 + Q0 \div 500 + 200
WetIsWarmer == phase = "wet" => t + 3 >= Along(c.t, c.p, p)
BaseBracketed == phase = "base" /\ c.rh < 1000 => BaseIs(p - Drop \div 2, c.t, c.p, Q0, Drop \div 2 + 200)
ParcelAgrees == (phase = "wet" /\ c.rh = 1000) => Abs(Parcel(c.t, c.p, p) - t) <= 5
ChillByWind == Here /\ t < 28400 => Chill(t - 27315, c.v) <= Chill(t - 27315, Max2(0, c.v - 100)) + 2
FeelsJoins == Here => LET f(x) == Feels(x, c.v, c.rh, p) IN Abs(f(1000) - f(999)) <= 8 /\ Abs(f(2000) - f(2001)) <= 8
FeelsGrows == Here /\ c.v <= 500 => LET x == t - 27315 IN Feels(x, c.v, c.rh, p) <= Feels(x + 200, c.v, c.rh, p) + 2
Emit == Here => PrintT("CASE " \o ToJson([air |-> c]))
===============================================================================
