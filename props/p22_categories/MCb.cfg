SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS Day Order Major Emit
