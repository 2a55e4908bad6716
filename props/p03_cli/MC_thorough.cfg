SPECIFICATION Spec
CONSTANTS
  NT = 8
  NE = 7
INVARIANTS AcceptsBalanced RoundTrip RunsEachOnce Batch UsedOnce Emit
