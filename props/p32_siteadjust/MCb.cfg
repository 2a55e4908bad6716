SPECIFICATION Spec
CONSTANTS Diffs <- SomeDiffs
  Ratios <- SomeRatios
  Most = 3
INVARIANTS NoDifferenceNoChange PerfectLeftAlone OrderOfSites OppositeSides Units10 TwoSitesExact BoundsHold Emit
CHECK_DEADLOCK FALSE
