SPECIFICATION Spec
CONSTANT NE = 2
INVARIANTS Reflexive NeverIgnored ExactSymmetric SilenceIsIdentity Emit
