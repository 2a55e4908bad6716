SPECIFICATION Spec
CONSTANTS Grads <- SomeGrads
  Moves <- SomeMoves
  N = 2
INVARIANTS Found Swapped Reversed NoGradient Nonnegative SmoothsWithin TentOfOne Emit
CHECK_DEADLOCK FALSE
