-------------------------------- MODULE Core --------------------------------
(* Fields that follow the sun: local solar time, day and night, clear sky radiation.    *)
(* Times are seconds since the start of a year; `past` is the length of the year before. *)
EXTENDS Sun
InYear(t, past) == IF t < 0 THEN t + past ELSE t
DayOf(t) == t \div 86400
(* minutes of the day to the nearest minute, within the day                              *)
MinuteOf(t) == Min2(((t % 86400) + 30) \div 60, 1440)
Middle(lo, hi) == (lo + hi) \div 2
SineAt(lat, lon, t) == SinElevation(lat, lon, DayOf(t), MinuteOf(t))
Clock(lon, t) == ((SolarHour(lon, DayOf(t), MinuteOf(t)) % 240000) + 240000) % 240000
Day(s) == s > 0
Doubtful(s) == Abs(s) < 8
(* trapezium over the samples, spacing minutes: twice the total in 0.1 W min             *)
Samples(end, past, hours, spacing) == [k \in 1..((hours * 60) \div spacing + 1) |-> InYear(end - hours * 3600 + (k - 1) * spacing * 60, past)]
Received(lat, lon, alt, turb, ts) == [k \in 1..Len(ts) |-> ClearSky(SineAt(lat, lon, ts[k]), DayOf(ts[k]), alt, turb)]
TwiceTotal(g) == 2 * SumTo(g, Len(g)) - g[1] - g[Len(g)]
=============================================================================
