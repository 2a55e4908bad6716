------------------------------- MODULE Normal -------------------------------
(* The normal distribution, tabulated every 0.05 and interpolated quadratically.      *)
(* Standardised values in 1e-4, probabilities and densities in 1e-6.                   *)
EXTENDS Fixed, Exps
CumNodes == <<
  500000, 519939, 539828, 559618, 579260, 598706, 617911, 636831, 655422, 673645, 691462, 708840, 725747,
  742154, 758036, 773373, 788145, 802337, 815940, 828944, 841345, 853141, 864334, 874928, 884930, 894350,
  903200, 911492, 919243, 926471, 933193, 939429, 945201, 950529, 955435, 959941, 964070, 967843, 971283,
  974412, 977250, 979818, 982136, 984222, 986097, 987776, 989276, 990613, 991802, 992857, 993790, 994614,
  995339, 995975, 996533, 997020, 997445, 997814, 998134, 998411, 998650, 998856, 999032, 999184, 999313,
  999423, 999517, 999596, 999663, 999720, 999767, 999807, 999841, 999869, 999892, 999912, 999928, 999941,
  999952, 999961, 999968, 999974, 999979, 999983, 999987, 999989, 999991, 999993, 999995, 999996, 999997,
  999997, 999998, 999998, 999999, 999999, 999999, 999999, 1000000, 1000000, 1000000, 1000000, 1000000>>
DenNodes == <<
  398942, 398444, 396953, 394479, 391043, 386668, 381388, 375240, 368270, 360527, 352065, 342944, 333225,
  322972, 312254, 301137, 289692, 277985, 266085, 254059, 241971, 229882, 217852, 205936, 194186, 182649,
  171369, 160383, 149727, 139431, 129518, 120009, 110921, 102265, 94049, 86277, 78950, 72065, 65616, 59595,
  53991, 48792, 43984, 39550, 35475, 31740, 28327, 25218, 22395, 19837, 17528, 15449, 13583, 11912, 10421,
  9094, 7915, 6873, 5953, 5143, 4432, 3810, 3267, 2794, 2384, 2029, 1723, 1459, 1232, 1038, 873, 732, 612,
  510, 425, 353, 292, 241, 199, 163, 134, 109, 89, 73, 59, 48, 39, 31, 25, 20, 16, 13, 10, 8, 6, 5, 4, 3, 2,
  2, 1, 1, 1>>
Curve(nodes, x) == LET i == x \div 500
                       f == x % 500
                       a == nodes[i + 1]
                       b == nodes[i + 2]
                       d2 == nodes[i + 3] - 2 * b + a
                   IN a + RoundDiv((b - a) * f, 500) - RoundDiv(f * (500 - f) * d2, 500000)
Phi(x) == IF x >= 50000 THEN 1000000 ELSE IF x <= -50000 THEN 0 ELSE IF x >= 0 THEN Curve(CumNodes, x) ELSE 1000000 - Curve(CumNodes, -x)
Dens(x) == IF Abs(x) >= 50000 THEN 0 ELSE Curve(DenNodes, Abs(x))
(* smallest x with Phi(x) >= p                                                         *)
RECURSIVE Where(_, _, _)
Where(lo, hi, p) == IF hi - lo <= 1 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF Phi(m) >= p THEN Where(lo, m, p) ELSE Where(m, hi, p)
Deviate(p) == Where(-50000, 50000, p)
(* (v - loc) / scale, cut at five deviations; scale > 0                                *)
Std(d, s) == IF d > 5 * s THEN 50001 ELSE IF d < -5 * s THEN -50001 ELSE RoundDiv(d * 10000, s)
(* cut = TRUE: the distribution has no part below zero                                 *)
Low(loc, s, cut) == IF cut THEN Phi(Std(-loc, s)) ELSE 0
Share(p, q) == RoundDiv((p \div 10) * 10000, Max2(1, q \div 100))                    \* p/q in 1e-5 ... both 1e-6
Below(t, loc, s, cut) ==                         \* probability of values below t, 1e-6
  IF s = 0 THEN (IF t > loc THEN 1000000 ELSE 0)
  ELSE IF cut /\ t <= 0 THEN 0
  ELSE LET a == Low(loc, s, cut) IN IF a = 0 THEN Phi(Std(t - loc, s)) ELSE 10 * RoundDiv(((Phi(Std(t - loc, s)) - a) \div 10) * 10000, (1000000 - a) \div 10) * 10
Quantile(p, loc, s, cut) ==                      \* p in 1e-6
  IF s = 0 THEN loc
  ELSE LET a == Low(loc, s, cut)
           q == a + ((p \div 1000) * (1000000 - a)) \div 1000 + ((p % 1000) * (1000000 - a)) \div 1000000
       IN loc + RoundDiv(Deviate(q) * s, 10000)
=============================================================================
