SPECIFICATION Spec
CONSTANTS
  NX = 3
  NY = 2
  W <- Weights
  FZ = 20
  MaxMasked = 4
INVARIANTS NoWeightWhereMasked Bounded Covered FullSliceMakesSumOne NoMaskIsPlain Emit
