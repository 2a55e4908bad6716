SPECIFICATION Spec
CONSTANTS LastYear = 2110
INVARIANTS Counts Emit
