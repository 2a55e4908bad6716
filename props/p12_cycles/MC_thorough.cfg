SPECIFICATION Spec
CONSTANTS MaxF = 4
  Nums = {0, 1, 4}
  Cycles = {0, 60}
INVARIANTS AllKept Ascending NumbersKept Shorter Emit
