SPECIFICATION Spec
CONSTANTS Temps <- SomeTemps
  Heights <- SomeHeights
  Orogs = {0, 2500}
  Lands = {FALSE, TRUE}
INVARIANTS SumsAgree WarmthGathers SnowAboveRain RainAboveHail CrossedMeansInside ReachedMeansFound BelowGround LandUnknown StonesGrow StonesMelt NoHailWhenHigh Emit
