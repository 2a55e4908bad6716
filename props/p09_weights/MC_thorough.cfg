SPECIFICATION Spec
CONSTANTS
  MaxN = 8
  MaxW = 9
INVARIANTS LinearOk LinearReversed NonLinearOk TriangularOk Emit
