SPECIFICATION Spec
CONSTANTS N = 1
  Fs <- FMore
  Rs <- RMore
  As <- AVals
  Ms <- MVals
INVARIANTS Obeyed Nearest LeftAlone Swapped Monotone Shares Emit
