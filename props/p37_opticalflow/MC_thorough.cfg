SPECIFICATION Spec
CONSTANTS Grads <- MoreGrads
  Moves <- MoreMoves
  N = 3
INVARIANTS Found Swapped Reversed NoGradient Nonnegative SmoothsWithin TentOfOne Emit
CHECK_DEADLOCK FALSE
