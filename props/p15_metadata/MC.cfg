SPECIFICATION Spec
CONSTANTS Times <- FewTimes
  Heights <- AllHeights
  Deep = FALSE
INVARIANTS Standard NoScalarDims Instants Emit
PROPERTY Settles
