-------------------------------- MODULE Core --------------------------------
(* Fields that describe land and terrain.  Heights and band limits in tenths of a     *)
(* metre; weights and coefficients in 1e-4.                                            *)
EXTENDS Fixed, Exps, Svp
(* --------------------------------------------------------------- land and bands ----- *)
Land(v) == IF v < 500 THEN 0 ELSE 1                       \* thousandths of land
InBand(h, b) == h > b[1] /\ h <= b[2]
BandMask(h, land, b) == IF land # 0 /\ InBand(h, b) THEN 1 ELSE 0
(* --------------------------------------------------------------- zone weights ------- *)
(* bands: rising and adjoining <<lo, hi>>                                               *)
Own(h, b) == LET off == IF 2 * h >= b[1] + b[2] THEN 2 * h - b[1] - b[2] ELSE b[1] + b[2] - 2 * h      \* twice the distance from the middle
             IN 10000 - RoundDiv(5000 * off, b[2] - b[1])
Above(h, b) == 2 * h > b[1] + b[2]
Below(h, b) == 2 * h < b[1] + b[2]
ZoneWeight(h, bands, k) ==
  LET n == Len(bands)
      in(j) == j >= 1 /\ j <= n /\ InBand(h, bands[j])
      \* beyond the middle of an end band there is no neighbour to share with
      shares(j) == (Above(h, bands[j]) /\ j < n) \/ (Below(h, bands[j]) /\ j > 1)
  IN IF in(k) THEN (IF shares(k) THEN Own(h, bands[k]) ELSE 10000)
     ELSE IF in(k - 1) /\ Above(h, bands[k - 1]) THEN 10000 - Own(h, bands[k - 1])
     ELSE IF in(k + 1) /\ Below(h, bands[k + 1]) THEN 10000 - Own(h, bands[k + 1])
     ELSE 0
(* --------------------------------------------------------------- smoothing ---------- *)
(* step: height change between neighbours (whole metres); power in halves               *)
Steepness(step, power) == LET g == Abs(step) IN CASE power = 1 -> ISqrt(g * 1000000) [] power = 2 -> g * 1000 [] power = 4 -> g * g [] power = 0 -> 1
Coefficient(u, least, most, atmin, atmax) ==      \* coefficients 1e-4
  IF most = least THEN atmin
  ELSE LET part == IF most - least > 100000 THEN RoundDiv(10000 * ((u - least) \div 100), (most - least) \div 100) ELSE RoundDiv(10000 * (u - least), most - least)
       IN atmin + (IF atmax >= atmin THEN RoundDiv(part * (atmax - atmin), 10000) ELSE -RoundDiv(part * (atmin - atmax), 10000))
(* m1, m2: mask either side                                                             *)
Zeroed(m1, m2, boundary, invert) == IF boundary THEN m1 # m2 ELSE IF invert THEN m1 = 0 \/ m2 = 0 ELSE m1 = 1 \/ m2 = 1
=============================================================================
