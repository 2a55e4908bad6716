SPECIFICATION Spec
CONSTANTS NX = 3
  NY = 2
  Vals = {0, 5}
  Moves <- SomeMoves
INVARIANTS Still Between WholeCells WeightsWhole HiddenIsMissing ThereAndBack Emit
