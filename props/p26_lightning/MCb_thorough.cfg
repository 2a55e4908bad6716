SPECIFICATION Spec
CONSTANTS Capes = {0, 1, 10, 100, 700, 1500, 4000}
  Waters = {0, 10, 50, 120, 199, 200, 201, 400}
  Rains = {0, 1, 2, 5, 9, 20, 60, 150}
  Lifts = {0}
INVARIANTS Chance MoreCape MoreRain MoreLift NoWater Stable LatBetween LatFalls LnOk Emit
