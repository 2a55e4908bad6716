SPECIFICATION Spec
CONSTANTS Heights = {0, 10, 45, 300}
  Most = 5
INVARIANTS WithinRange SteeperSmoothsLess EndsReached SameBothWays MaskSides Emit
CHECK_DEADLOCK FALSE
