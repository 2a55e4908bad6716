SPECIFICATION Spec
CONSTANTS MaxF = 3
  Nums = {0, 1, 4}
  Cycles = {0, 60, 90}
INVARIANTS AllKept Ascending NumbersKept Shorter Emit
