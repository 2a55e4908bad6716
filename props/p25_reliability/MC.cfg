SPECIFICATION Spec
CONSTANTS N = 4
  Counts = {0, 3, 5, 9}
  Mins = {1, 4}
INVARIANTS Conserved Enough NeverFalls OnlyIfNeeded AllBinsKept Frequency InRange Increasing Emit
