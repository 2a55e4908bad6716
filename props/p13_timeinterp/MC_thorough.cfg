SPECIFICATION Spec
CONSTANTS Vals = {0, 2, 7}
  Gaps = {1, 3, 4}
  NPairs = 2
  Kinds = {"linear", "max", "min", "accumulation"}
INVARIANTS Covered Conserved Extremes Hit NotNegative Emit
