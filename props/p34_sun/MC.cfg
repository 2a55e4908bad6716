SPECIFICATION Spec
CONSTANTS Days = {0, 79, 80, 172, 265, 300, 365}
  Lats <- SomeLats
  Lons <- SomeLons
  Step = 180
INVARIANTS Bounded TiltOnly NearlyClock OppositePoint WestLater PolarDay HighestAtNoon Dark Limited HazeDims HigherSunBrighter ThinnerAirBrighter JanuaryStronger Emit
CHECK_DEADLOCK FALSE
