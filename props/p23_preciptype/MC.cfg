SPECIFICATION Spec
CONSTANTS N = 4
  NX = 2
  Amounts <- Amounts3
INVARIANTS Bounded Mirror Twice OwnNearest SomeNearest OnePhase Shared Whole Emit
