-------------------------------- MODULE Svp ---------------------------------
(* Saturation over water and ice (Goff and Gratch, as published in hPa), tabulated   *)
(* every kelvin from 182.16 K in millipascal and interpolated quadratically between, *)
(* never across the triple point.  Temperatures in hundredths of a kelvin, pressures *)
(* in Pa, mixing ratios in 1e-7.                                                     *)
EXTENDS Fixed, Exps
Nodes == <<
   8, 10, 12, 14, 17, 20, 24, 28, 33, 39, 46, 55, 65, 76, 89, 104, 122, 143, 166, 194, 225, 262, 304, 351, 406,
      469, 541, 623, 717, 823, 944, 1081, 1237, 1414, 1614, 1839, 2094, 2382, 2705, 3070, 3479, 3938, 4453, 5030,
      5676, 6398, 7204, 8104, 9106, 10222, 11464, 12843, 14375, 16074, 17957, 20042, 22348, 24897, 27711, 30817,
      34240, 38011, 42161, 46724, 51739, 57244, 63283, 69903, 77153, 85089, 93768, 103252, 113610, 124912, 137237,
      150667, 165291, 181204, 198508, 217312, 237732, 259892, 283925, 309972, 338183, 368720, 401753, 437463,
      476045, 517704, 562658, 611139, 657001, 705886, 757964, 813414, 872420, 935178, 1001890, 1072768, 1148031,
      1227911, 1312647, 1402489, 1497696, 1598540, 1705302, 1818274, 1937761, 2064078, 2197554, 2338528, 2487355,
      2644400, 2810044, 2984679, 3168713, 3362568, 3566681, 3781504, 4007503, 4245162, 4494980, 4757472, 5033171,
      5322626, 5626405, 5945092, 6279290, 6629621, 6996725, 7381263, 7783914, 8205377, 8646372, 9107640, 9589942,
      10094060, 10620799, 11170987, 11745471, 12345124, 12970840, 13623538, 14304160, 15013671, 15753064, 16523352,
      17325577, 18160805, 19030126, 19934660, 20875549, 21853966, 22871108, 23928200, 25026495, 26167274, 27351846>>
Es(t0) == LET t == Max2(18416, Min2(33800, t0))
             i == (t - 18316) \div 100
             f == (t - 18316) % 100
             n(k) == Nodes[k + 2]
             d2 == IF i >= 90 THEN n(i + 2) - 2 * n(i + 1) + n(i) ELSE n(i + 1) - 2 * n(i) + n(i - 1)
         IN n(i) + RoundDiv((n(i + 1) - n(i)) * f, 100) - (IF d2 > 100000 THEN ((f * (100 - f) * (d2 \div 100)) \div 200) ELSE RoundDiv(f * (100 - f) * d2, 20000))
(* in air of pressure p: a factor 1 + 1e-8 p (4.5 + 6e-4 tc^2)                          *)
Corr(t, p) == LET tc == (t - 27315) \div 10 IN RoundDiv(p * 9, 20) + ((p \div 100) * ((tc * tc) \div 100) * 6) \div 1000     \* 1e-7
EsAir(t, p) == LET e == Es(t) c == Corr(t, p) IN IF e < 20000 THEN e + (e * c) \div 10000000 ELSE e + ((e \div 1000) * c) \div 10000
(* digits of n/d, 0 <= n < d <= 2e8, to 1e-7                                            *)
RECURSIVE Digits(_, _, _, _)
Digits(n, d, k, acc) == IF k = 0 THEN acc ELSE Digits((10 * n) % d, d, k - 1, 10 * acc + (10 * n) \div d)
Ratio7(n, d) == Digits(n % d, d, 7, 0) + 10000000 * (n \div d)
(* saturated mixing ratio                                                               *)
Qs(t, p) == LET e == EsAir(t, p)
                num == (e * 3) \div 5 + (e * 11) \div 500 - (e * 2) \div 100000
            IN Ratio7(num, Max2(e, p * 1000) - (e - num))
(* exponent of pressure along a dry ascent: t * (p2/p)^(287/1005)                         *)
ExpFine(x) == RoundDiv(ExpNeg(x \div 10) * (10000 - (x % 10)), 10000)                   \* 30000 exp(-x/10000)
LnRatio(p, p2) == Ln(Digits(p % p2, p2, 4, 0) + 10000 * (p \div p2))
Up(t, p, p2) == LET x == RoundDiv(LnRatio(p, p2) * 287, 1005) IN RoundDiv(t * ExpFine(x), 30000)       \* p2 <= p
Along(t, p, p2) == IF p2 <= p THEN Up(t, p, p2)
                   ELSE LET x == RoundDiv(LnRatio(p2, p) * 287, 1005) IN RoundDiv(t * 30000, ExpFine(x))
Latent(t) == 2501000 - ((t - 27315) * 117) \div 5                                       \* J/kg, at t
Cap(x, m) == Max2(-m, Min2(m, x))
(* Condensing: the temperature at pressure p of air that is td before condensing, holding q. *)
Warmth(td, dq) == RoundDiv((Latent(td) \div 1005) * Cap(dq, 400000), 100000)
RECURSIVE SatIn(_, _, _, _, _)
SatIn(lo, hi, td, p, q) == IF hi - lo <= 1 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF m - td - Warmth(td, q - Qs(m, p)) >= 0 THEN SatIn(lo, m, td, p, q) ELSE SatIn(m, hi, td, p, q)
Condensed(td, p, q) == IF q <= Qs(td, p) THEN td ELSE SatIn(td, td + 8000, td, p, q)
Parcel(tb, pb, pl) == Condensed(Along(tb, pb, pl), pl, Qs(tb, pb))
=============================================================================
