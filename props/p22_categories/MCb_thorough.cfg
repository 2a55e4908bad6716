SPECIFICATION Spec
CONSTANTS N = 6
INVARIANTS Day Order Major Emit
