SPECIFICATION Spec
CONSTANTS NX = 3
  NY = 2
  Vals <- SomeVals
  Moves <- SomeMoves
INVARIANTS Still Between WholeCells WeightsWhole HiddenIsMissing ThereAndBack Emit
