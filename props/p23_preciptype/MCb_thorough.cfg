SPECIFICATION Spec
CONSTANTS N = 3
  Vs <- Vs4
INVARIANTS IsProb ColdOnly WetOnly AnyOrder Alike
