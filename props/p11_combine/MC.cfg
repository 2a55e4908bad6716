SPECIFICATION Spec
CONSTANTS N = 4
INVARIANTS AsDefined Symmetric Masks MeanBetween Emit
