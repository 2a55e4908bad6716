SPECIFICATION Spec
CONSTANTS N = 5
  Counts = {0, 3, 5, 9}
  Mins = {1, 4, 6}
INVARIANTS Conserved Enough NeverFalls OnlyIfNeeded AllBinsKept Frequency InRange Increasing
