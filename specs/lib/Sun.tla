-------------------------------- MODULE Sun ---------------------------------
(* Where the sun stands and what it sends through a clear sky.  Angles in hundredths  *)
(* of a degree, sines in 1e-4, hours in 1e-4, minutes of the day (UTC), days from 0.   *)
EXTENDS Fixed, Exps
SinTab == <<0, 175, 349, 523, 698, 872, 1045, 1219, 1392, 1564, 1736, 1908, 2079, 2250, 2419, 2588, 2756, 2924, 3090, 3256, 3420, 3584, 3746, 3907, 4067, 4226, 4384, 4540, 4695, 4848, 5000, 5150, 5299, 5446, 5592, 5736, 5878, 6018, 6157, 6293, 6428, 6561, 6691, 6820, 6947, 7071, 7193, 7314, 7431, 7547, 7660, 7771, 7880, 7986, 8090, 8192, 8290, 8387, 8480, 8572, 8660, 8746, 8829, 8910, 8988, 9063, 9135, 9205, 9272, 9336, 9397, 9455, 9511, 9563, 9613, 9659, 9703, 9744, 9781, 9816, 9848, 9877, 9903, 9925, 9945, 9962, 9976, 9986, 9994, 9998, 10000, 10000>>
SinUp(x) == SinTab[x \div 100 + 1] + RoundDiv((SinTab[x \div 100 + 2] - SinTab[x \div 100 + 1]) * (x % 100), 100)     \* 0 to 9000
SinOf(x) == LET a == ((x % 36000) + 36000) % 36000 IN
   IF a <= 9000 THEN SinUp(a) ELSE IF a <= 18000 THEN SinUp(18000 - a) ELSE IF a <= 27000 THEN -SinUp(a - 18000) ELSE -SinUp(36000 - a)
CosOf(x) == SinOf(x + 9000)
RECURSIVE ArcFrom(_, _)
ArcFrom(s, k) == IF k = 90 \/ SinTab[k + 2] >= s THEN IF k = 90 \/ SinTab[k + 2] = SinTab[k + 1] THEN 100 * k ELSE 100 * k + RoundDiv(100 * (s - SinTab[k + 1]), SinTab[k + 2] - SinTab[k + 1]) ELSE ArcFrom(s, k + 1)
ArcSin(s) == ArcFrom(s, 0)                                \* 0 to 1e4
Declination(day) == -RoundDiv(2350 * CosOf((9856 * day) \div 100 + 930), 10000)
YearAngle(day) == (36000 * day) \div 365
EquationOfTime(day) ==
  LET a == YearAngle(day)
      r == RoundDiv(750000 + 1868 * CosOf(a) - 32077 * SinOf(a) - 14615 * CosOf(2 * a) - 40849 * SinOf(2 * a), 100000)    \* 1e-5 radian
  IN RoundDiv(r * 38197, 100000)
SolarHour(lon, day, minute) == RoundDiv(minute * 1000, 6) + RoundDiv(lon * 20, 3) + EquationOfTime(day)
SinElevation(lat, lon, day, minute) ==
  LET d == Declination(day)
      h == RoundDiv((SolarHour(lon, day, minute) - 120000) * 15, 100)
  IN RoundDiv(SinOf(d) * SinOf(lat) + RoundDiv(CosOf(d) * CosOf(lat), 10000) * CosOf(h), 10000)
(* ---- clear sky (0.1 W m-2): altitude m, turbidity in hundredths                      *)
TopOfAir(day) == 13677 + RoundDiv(451 * CosOf(YearAngle(day)), 10000)
AirMass(s) ==                                             \* 1e-3
  LET x == 960800 - 100 * (9000 - ArcSin(s))               \* 96.08 degrees less the zenith angle, 1e-4
      p == ExpNeg(RoundDiv((Ln(x) \div 10) * 16364, 10000)) \* 30000 x^-1.6364
      far == RoundDiv(p * 5057, 30000)
  IN 10000000 \div (s + far)
ClearSky(s, day, alt, turb) ==
  IF s <= 0 THEN 0
  ELSE LET f == ExpNeg(RoundDiv(alt, 8)) + RoundDiv(ExpNeg(RoundDiv(alt * 4, 5)) * (turb - 100), 100)
           c1 == RoundDiv(509 * alt, 100) + 86800
           c2 == RoundDiv(392 * alt, 100) + 3870
           x == RoundDiv(RoundDiv(c2 * AirMass(s), 100000) * f, 30000)
           g == RoundDiv(RoundDiv(RoundDiv(c1 * (TopOfAir(day) \div 10), 10000) * s, 10000) * ExpNeg(x), 30000)
       IN Min2(g, TopOfAir(day))
=============================================================================
