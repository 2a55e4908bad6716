SPECIFICATION Spec
CONSTANTS
  T3 = 2
INVARIANTS InvolutionOnProbabilities TwiceIsIdentity PartitionSumsToOne QuantileMonotone QuantileInverse ExpectedBetween Emit
