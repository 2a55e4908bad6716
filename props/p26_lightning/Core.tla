-------------------------------- MODULE Core --------------------------------
(* Lightning probabilities.  Nowcast: probabilities as ten-thousandths.            *)
EXTENDS Fixed, Exps
(* Rates of strikes in quarters per minute; precipitation probabilities and ice     *)
(* probabilities in thousandths; leads in minutes.                                  *)
Risk2 == 2500
Risk1 == 10000
(* a rate of r/4 per minute is within a storm at lead m: r/4 >= 1/2 + 2 m/360        *)
InStorm(r, m) == 90 * r >= 180 + 2 * m
Nearby(r) == r >= 0
ByRate(p, r, m) == IF InStorm(r, m) THEN Max2(p, Risk1) ELSE IF Nearby(r) THEN Max2(p, Risk2) ELSE p
ByHeavy(p, heavy, intense) == IF intense >= 200 THEN Max2(p, Risk1) ELSE IF heavy >= 400 THEN Max2(p, Risk2) ELSE p
Limit(any) == IF any <= 0 THEN 67 ELSE IF any >= 100 THEN 10000
              ELSE IF any < 50 THEN 67 + RoundDiv(2433 * any, 50) ELSE 2500 + RoundDiv(7500 * (any - 50), 50)
ByRain(p, any) == Min2(p, Limit(any))
IceMost == <<1000, 5000, 9000>>
(* the most an ice probability of v thousandths asks for at threshold i              *)
IceAsks(v, i, m) == IF m >= 150 THEN 0 ELSE RoundDiv(v * (IceMost[i] \div 100) * (150 - m), 1500)
ByIce(p, ice, m) == IF m >= 150 \/ ice = <<>> THEN p
                    ELSE Max2(p, SetMax({IceAsks(ice[i], i, m) : i \in 1..3}))
Nowcast(p, r, any, heavy, intense, ice, m) == ByIce(ByRain(ByHeavy(ByRate(p, r, m), heavy, intense), any), ice, m)

(* the first guess is that nearest in time, at most two hours (and a second) away     *)
Off(a, b) == Abs(a - b)
NearestOnes(ts, t) == {k \in 1..Len(ts) : \A j \in 1..Len(ts) : Off(ts[k], t) <= Off(ts[j], t)}
Usable(ts, t) == \A k \in NearestOnes(ts, t) : Off(ts[k], t) <= 120

(* Thresholds by latitude (whole degrees): scaled by 40                              *)
ByLat(lat, mid, trop) == LET a == Abs(lat) IN IF a >= 50 THEN 40 * mid ELSE IF a <= 10 THEN 40 * trop ELSE 40 * trop - (trop - mid) * (a - 10)

(* Regression: CAPE whole J/kg, rain in tenths of kg m-2, PWAT in tenths, CIN whole  *)
(* (negative), lifted index in tenths                                                *)
Inches(a) == RoundDiv(a * 39370, 1000)
WithRain(cape, a) == RoundDiv(13 * Ln(cape * Inches(a) + 7000), 100) + 500
NoRain(cape, cin) == RoundDiv(25 * Ln(RoundDiv(cape * 10000, 100 - cin) + 3100), 1000) + 300
(* rain as inches x 10000 against PWAT/1000 in the same units: 10000 (q/10)/1000 = q *)
LittleRain(a, q) == Inches(a) - q < 100
NearlyStable(li, a) == RoundDiv(2 * ISqrt(Max2(li + 40, 0) * Inches(a) * 1000), 10)
Raw(cape, li, q, cin, a) == IF cape <= 0 THEN NearlyStable(li, a) ELSE IF LittleRain(a, q) THEN NoRain(cape, cin) ELSE WithRain(cape, a)
Dried(p, q) == IF q < 200 THEN RoundDiv(p * q, 200) ELSE p
Regress(cape, li, q, cin, a) == Min2(9500, Dried(Raw(cape, li, q, cin, a), q))
=============================================================================
