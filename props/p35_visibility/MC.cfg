SPECIFICATION Spec
CONSTANTS Thresholds = {0, 50, 1000, 4999, 5000, 5001, 10000}
  Fulls = {1000, 5000, 8000}
  Starts = {0, 6000, 10000}
  Ps = {0, 1, 5000, 9999, 10000}
INVARIANTS Chance NeverClearer Wholly Mirrored NoMoreThanEither AtGround Emit
PROPERTY Climbs
CHECK_DEADLOCK FALSE
