SPECIFICATION Spec
CONSTANTS
  N = 3
  W = 2
INVARIANTS PassIsTheSteps Bounded MaskedKept Isolated SymPadMirrors Emit
