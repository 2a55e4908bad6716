SPECIFICATION Spec
CONSTANTS N = 2
  Emitting = TRUE
  Leaves = {"L1", "L2", "L3"}
INVARIANTS Lands Decided OneRoute Unknown Inverse Emit
