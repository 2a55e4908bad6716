SPECIFICATION Spec
CONSTANTS T = 3
  NB = 5
INVARIANTS EveryOneOnce ObservedOnce MeanInBin Ordered
