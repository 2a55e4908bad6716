SPECIFICATION Spec
CONSTANTS Times <- AllTimes
  Heights <- AllHeights
  Deep = TRUE
INVARIANTS Standard NoScalarDims Instants Emit
PROPERTY Settles
