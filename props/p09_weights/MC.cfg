SPECIFICATION Spec
CONSTANTS
  MaxN = 5
  MaxW = 4
INVARIANTS LinearOk LinearReversed NonLinearOk TriangularOk Emit
