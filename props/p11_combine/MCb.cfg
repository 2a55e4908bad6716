SPECIFICATION Spec
CONSTANTS NP = 5
INVARIANTS Covers Contiguous Lengths Total Emit
