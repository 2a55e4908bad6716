SPECIFICATION Spec
CONSTANTS N = 5
INVARIANTS AsDefined Symmetric Masks MeanBetween Emit
