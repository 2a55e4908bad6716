SPECIFICATION Spec
CONSTANTS NP = 7
INVARIANTS Covers Contiguous Lengths Total Emit
