SPECIFICATION Spec
CONSTANTS Temps <- MoreTemps
  Heights <- MoreHeights
  Orogs = {0, 2500}
  Lands = {FALSE, TRUE}
INVARIANTS SumsAgree WarmthGathers SnowAboveRain RainAboveHail CrossedMeansInside ReachedMeansFound BelowGround LandUnknown StonesGrow StonesMelt NoHailWhenHigh Emit
