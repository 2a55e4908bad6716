SPECIFICATION Spec
CONSTANTS Capes = {0, 1, 100, 1500}
  Waters = {0, 50, 199, 200, 400}
  Rains = {0, 1, 5, 20, 150}
  Lifts = {0}
INVARIANTS Chance MoreCape MoreRain MoreLift NoWater Stable LatBetween LatFalls LnOk Emit
