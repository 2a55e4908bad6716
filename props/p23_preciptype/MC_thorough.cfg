SPECIFICATION Spec
CONSTANTS N = 6
  NX = 3
  Amounts <- Amounts3
INVARIANTS Bounded Mirror Twice OwnNearest SomeNearest OnePhase Shared Whole
