SPECIFICATION Spec
CONSTANTS N = 2
  Vs <- Vs4
INVARIANTS IsProb ColdOnly WetOnly AnyOrder Alike Emit
