SPECIFICATION Spec
CONSTANTS N = 1
  Fs <- FVals
  Rs <- RVals
  As <- AVals
  Ms <- MVals
INVARIANTS Obeyed Nearest LeftAlone Swapped Monotone Shares Emit
