SPECIFICATION Spec
CONSTANTS Speeds = {0, 1, 35, 120, 300}
  Capes = {0, 9, 10, 11, 300, 2000, 4500}
  Rains = {0, 49, 50, 51, 287, 900, 2500}
INVARIANTS SameSpeed FromIsOppositeTo Westerly MoreLift Thresholds Square1 Emit
