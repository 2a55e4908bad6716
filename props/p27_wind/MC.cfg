SPECIFICATION Spec
CONSTANTS Dirs = {0, 3, 8, 11}
  Members = {1, 2}
  Calls = 2
INVARIANTS OwnAnswer Alone Opposites Reversed TurnsAlong QuarterTurn OwnWay NotOpposite Emit
