SPECIFICATION Spec
CONSTANTS Dirs = {0, 2, 5, 8, 10, 15}
  Members = {1, 2, 3}
  Calls = 2
INVARIANTS OwnAnswer Alone Opposites Reversed TurnsAlong QuarterTurn OwnWay NotOpposite Emit
