SPECIFICATION Spec
CONSTANTS
  T3 = 4
INVARIANTS InvolutionOnProbabilities TwiceIsIdentity PartitionSumsToOne QuantileMonotone QuantileInverse ExpectedBetween Emit
