---------------------------------- MODULE MC ----------------------------------
(* The earth turns under the sun, an hour at a time, on some days of the year.            *)
EXTENDS Core, Json, TLC
CONSTANTS Days, Lats, Lons, Step
VARIABLES day, minute, lat, lon
SomeLats == {-9000, -5200, -1000, 0, 2350, 5500, 9000}
SomeLons == {-18000, -9050, 0, 300, 12000}
MoreLats == {-9000, -7000, -5200, -2350, -1000, 0, 100, 2350, 5500, 6655, 9000}
Init == day \in Days /\ minute = 0 /\ lat \in Lats /\ lon \in Lons
Next == minute + Step < 1440 /\ minute' = minute + Step /\ UNCHANGED <<day, lat, lon>>
Spec == Init /\ [][Next]_<<day, minute, lat, lon>>
S == SinElevation(lat, lon, day, minute)
Bounded == Abs(S) <= 10003
TiltOnly == Abs(Declination(day)) <= 2350
NearlyClock == Abs(EquationOfTime(day)) <= 3000
NoonAngle == 120000 - SolarHour(lon, day, 0)              \* 1e-4 h
OppositePoint == Near(SinElevation(-lat, lon + 18000, day, minute), -S, 8)
WestLater == Near(SinElevation(lat, lon, day, minute), SinElevation(lat, lon - 1500, day, minute + 60), 4)
PolarDay == Abs(lat) = 9000 => (Day(S) = ((lat > 0) = (Declination(day) > 0)))
HighestAtNoon == S <= SinElevation(lat, lon, day, RoundDiv(NoonAngle * 6, 1000)) + 10
Dark == S <= 0 => ClearSky(S, day, 100, 300) = 0
Limited == S > 0 => ClearSky(S, day, 4000, 100) <= TopOfAir(day) /\ ClearSky(S, day, 0, 300) <= TopOfAir(day)
HazeDims == S > 0 => ClearSky(S, day, 0, 500) <= ClearSky(S, day, 0, 300) /\ ClearSky(S, day, 0, 300) <= ClearSky(S, day, 0, 200)
HigherSunBrighter == S > 100 /\ S < 9900 => ClearSky(S + 100, day, 0, 300) >= ClearSky(S, day, 0, 300)
ThinnerAirBrighter == S > 3000 => ClearSky(S, day, 2000, 300) >= ClearSky(S, day, 0, 300)
JanuaryStronger == TopOfAir(2) >= TopOfAir(day) - 1
Emit == PrintT("CASE " \o ToJson([day |-> day, minute |-> minute, lat |-> lat, lon |-> lon]))
===============================================================================
