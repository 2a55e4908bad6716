---------------------------------- MODULE MC ----------------------------------
(* One place of the nowcast worked through: strikes, heavy rain, the chance of any  *)
(* rain, ice.                                                                       *)
EXTENDS Core, Json, TLC
CONSTANTS Guess, Rates, Anys, Ices, Leads
VARIABLES c, p, step
SomeRates == {-4, 0, 1, 2, 3, 4, 6, 10}
Cells == [g : Guess, r : Rates, any : Anys, heavy : {0, 399, 400}, intense : {0, 199, 200}, ice : Ices, m : Leads]
Sensible(x) == x.intense <= x.heavy \/ x.heavy = 0
Init == c \in {x \in Cells : Sensible(x)} /\ p = c.g /\ step = 0
Strikes == step = 0 /\ p' = ByRate(p, c.r, c.m) /\ step' = 1 /\ c' = c
Heavy == step = 1 /\ p' = ByHeavy(p, c.heavy, c.intense) /\ step' = 2 /\ c' = c
Rain == step = 2 /\ p' = ByRain(p, c.any) /\ step' = 3 /\ c' = c
Ice == step = 3 /\ p' = ByIce(p, IF c.ice = 0 THEN <<>> ELSE <<c.ice, c.ice \div 2, c.ice \div 4>>, c.m) /\ step' = 4 /\ c' = c
Next == Strikes \/ Heavy \/ Rain \/ Ice
Spec == Init /\ [][Next]_<<c, p, step>>
Chance == p \in 0..10000
LimitedByRain == step = 3 => p <= Limit(c.any)
OnlyIceBeatsRain == step = 4 /\ p > Limit(c.any) => c.ice > 0 /\ c.m < 150
StormsCertain == step = 2 /\ (InStorm(c.r, c.m) \/ c.intense >= 200) => p = 10000
NeverBelowRisk2 == step = 2 /\ (Nearby(c.r) \/ c.heavy >= 400) => p >= 2500
GuessKept == step = 3 /\ c.r < 0 /\ c.heavy < 400 /\ c.intense < 200 => p = Min2(c.g, Limit(c.any))
FadesWithLead == \A i \in 1..3 : \A m \in Leads : \A n \in Leads : m <= n => IceAsks(c.ice, i, n) <= IceAsks(c.ice, i, m)
StormsHarder == \A m \in Leads : \A n \in Leads : m <= n /\ InStorm(c.r, n) => InStorm(c.r, m)
Lim == \A a \in Anys : \A b \in Anys : a <= b => Limit(a) <= Limit(b)
Emit == step = 4 => PrintT("CASE " \o ToJson([cell |-> c]))
===============================================================================
