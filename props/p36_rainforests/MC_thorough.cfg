SPECIFICATION Spec
CONSTANTS Ps = {0, 1, 2500, 4001, 7500, 9999, 10000}
  N = 4
  Gaps <- SomeGaps
INVARIANTS Falls KeepsFalling Within Once AtThresholds FallsBetween CertainBelow Emit
CHECK_DEADLOCK FALSE
