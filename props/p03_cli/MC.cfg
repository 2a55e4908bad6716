SPECIFICATION Spec
CONSTANTS
  NT = 6
  NE = 5
INVARIANTS AcceptsBalanced RoundTrip RunsEachOnce Batch UsedOnce Emit
