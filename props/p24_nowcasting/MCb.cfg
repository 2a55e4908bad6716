SPECIFICATION Spec
CONSTANTS N = 4
  Rates <- WithMask
  Start = 7
INVARIANTS Additive Grows Holes Steady Complete Ordered Emit
