SPECIFICATION Spec
CONSTANTS MaxN = 4
  Vals <- SomeVals
  Steps = {1, 2}
INVARIANTS Additive Rising Symmetric Exact Shift Ends Between Emit
