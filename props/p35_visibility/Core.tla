-------------------------------- MODULE Core --------------------------------
(* Chance of poor visibility raised by low cloud: probabilities and scales in 1e-4,      *)
(* thresholds t and the first unscaled threshold full in metres.                         *)
EXTENDS Fixed
Scale(t, full, start) ==
  IF t >= full THEN 10000
  ELSE LET r == RoundDiv((full - t) * 10000, full)
           q == RoundDiv(r * r, 10000)
       IN 10000 - RoundDiv((10000 - start) * RoundDiv(q * q, 10000), 10000)
Below(p, above) == IF above THEN 10000 - p ELSE p
(* v, c: as given, relative to above or below                                            *)
Raised(v, vabove, c, cabove, t, full, start) ==
  Below(Max2(Below(v, vabove), RoundDiv(Scale(t, full, start) * Below(c, cabove), 10000)), vabove)
=============================================================================
