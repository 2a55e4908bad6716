SPECIFICATION Spec
CONSTANTS T = 2
  NB = 4
INVARIANTS EveryOneOnce ObservedOnce MeanInBin Ordered Emit
