SPECIFICATION Spec
CONSTANTS
  N = 4
  W = 4
INVARIANTS PassIsTheSteps Bounded MaskedKept Isolated SymPadMirrors Emit
