SPECIFICATION Spec
CONSTANTS Speeds = {0, 35, 120}
  Capes = {0, 9, 10, 2000}
  Rains = {0, 49, 50, 287}
INVARIANTS SameSpeed FromIsOppositeTo Westerly MoreLift Thresholds Square1 Emit
