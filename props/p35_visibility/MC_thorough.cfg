SPECIFICATION Spec
CONSTANTS Thresholds = {0, 50, 100, 500, 1000, 2000, 4000, 4999, 5000, 5001, 10000}
  Fulls = {1000, 5000, 8000}
  Starts = {0, 1, 2500, 5000, 6000, 9999, 10000}
  Ps = {0, 1, 100, 2500, 3333, 5000, 6000, 7500, 9999, 10000}
INVARIANTS Chance NeverClearer Wholly Mirrored NoMoreThanEither AtGround Emit
PROPERTY Climbs
CHECK_DEADLOCK FALSE
