SPECIFICATION Spec
CONSTANTS Ps = {0, 1, 4000, 7500, 10000}
  N = 3
  Gaps <- SomeGaps
INVARIANTS Falls KeepsFalling Within Once AtThresholds FallsBetween CertainBelow Emit
CHECK_DEADLOCK FALSE
