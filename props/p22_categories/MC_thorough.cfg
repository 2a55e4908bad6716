SPECIFICATION Spec
CONSTANTS N = 3
  Emitting = FALSE
  Leaves = {"L1", "L2"}
INVARIANTS Lands Decided OneRoute Unknown Inverse Emit
