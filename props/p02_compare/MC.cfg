SPECIFICATION Spec
CONSTANT NE = 1
INVARIANTS Reflexive NeverIgnored ExactSymmetric SilenceIsIdentity Emit
