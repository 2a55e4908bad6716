SPECIFICATION Spec
CONSTANTS Days = {0, 30, 60, 79, 80, 81, 120, 150, 172, 200, 240, 265, 266, 300, 330, 365}
  Lats <- MoreLats
  Lons <- SomeLons
  Step = 60
INVARIANTS Bounded TiltOnly NearlyClock OppositePoint WestLater PolarDay HighestAtNoon Dark Limited HazeDims HigherSunBrighter ThinnerAirBrighter JanuaryStronger Emit
CHECK_DEADLOCK FALSE
