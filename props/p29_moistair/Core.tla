-------------------------------- MODULE Core --------------------------------
(* Moist air: mixing ratio, wet bulb, cloud base and top of a parcel, and what it    *)
(* feels like.  Temperatures in hundredths of a kelvin (of a degree C for tc),       *)
(* pressures in Pa, mixing ratios in 1e-7, relative humidity in thousandths, winds    *)
(* in cm/s.                                                                          *)
EXTENDS Svp
Q(t, p, rh) == LET q == Qs(t, p) IN IF q < 1000000 THEN RoundDiv(rh * q, 1000) ELSE rh * (q \div 1000)
(* Wet bulb: the enthalpy left over at t for air of temperature t0 and moisture q, of   *)
(* which the wet bulb temperature is the only zero.                                      *)
Excess(t, t0, p, q) == ((Latent(t0) \div 1000) * Cap(Qs(t, p) - q, 800000)) \div 10000 + ((1005 + ((845 * Cap(q, 2000000)) \div 10000000)) * (t - t0)) \div 100
WetBulbIs(t, t0, p, rh, tol) == LET q == Q(t0, p, rh) IN Excess(t - tol, t0, p, q) <= 0 /\ Excess(t + tol, t0, p, q) >= 0
RECURSIVE WetBulbIn(_, _, _, _, _)
WetBulbIn(lo, hi, t0, p, q) == IF hi - lo <= 1 THEN hi ELSE LET m == (lo + hi) \div 2 IN IF Excess(m, t0, p, q) >= 0 THEN WetBulbIn(lo, m, t0, p, q) ELSE WetBulbIn(m, hi, t0, p, q)
WetBulb(t0, p, rh) == WetBulbIn(t0 - 4000, t0 + 2, t0, p, Q(t0, p, rh))
(* Cloud base: the pressure at which air raised dry from (t, p) becomes saturated.        *)
Short(p2, t, p, q) == Qs(Along(t, p, p2), p2) - q                      \* > 0: not yet saturated
BaseIs(p2, t, p, q, tol) == Short(p2 + tol, t, p, q) >= 0 /\ Short(p2 - tol, t, p, q) <= 0
(* Cloud top: rising through the levels (descending pressures) while no colder than around; *)
(* Over when a comparison is too close to call.                                              *)
RECURSIVE TopFrom(_, _, _, _, _, _)
TopFrom(tb, pb, pls, env, i, best) ==
  IF i > Len(pls) THEN best
  ELSE LET t == Parcel(tb, pb, pls[i]) IN
       IF pls[i] < pb /\ Abs(t - env[i]) <= 12 THEN Over
       ELSE IF pls[i] < pb /\ t < env[i] THEN best
       ELSE TopFrom(tb, pb, pls, env, i + 1, t)
CloudTop(tb, pb, pls, env) == LET t == TopFrom(tb, pb, pls, env, 1, tb) IN
  IF t = Over THEN Over ELSE IF Abs(tb - t - 400) <= 12 THEN Over ELSE IF tb - t < 400 THEN Masked ELSE t
(* Wind chill, apparent temperature, and what it feels like.                                 *)
Power16(v) == RoundDiv(26081 * ExpFine(RoundDiv(Ln(111111111 \div Max2(134, v)) * 16, 100)), 30000)      \* (km/h)^0.16 * 10000
Chill(tc, v) == 1312 + RoundDiv(6215 * tc, 10000) + RoundDiv((RoundDiv(3965 * tc, 1000) - 11370) * (Power16(v) \div 10), 10000)
Apparent(tc, v, rh, p) == RoundDiv(104 * tc, 100) - 270 + RoundDiv((EsAir(tc + 27315, p) \div 5000) * rh, 1000) - RoundDiv(65 * v, 100)
Feels(tc, v, rh, p) ==
  IF ~IsNum(tc) THEN tc
  ELSE IF tc < 1000 THEN Chill(tc, v)
  ELSE IF tc > 2000 THEN Apparent(tc, v, rh, p)
  ELSE RoundDiv((tc - 1000) * Apparent(tc, v, rh, p) + (2000 - tc) * Chill(tc, v), 1000)
=============================================================================
