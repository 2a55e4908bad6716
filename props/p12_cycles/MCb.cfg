SPECIFICATION Spec
CONSTANTS LastYear = 2040
INVARIANTS Counts Emit
