SPECIFICATION Spec
CONSTANTS
  Vals <- V3
  NS = 1
  NX = 3
INVARIANTS InRange Batch MaskOnlyIfNever Complement VicinityNeverLowers Monotone Emit
CHECK_DEADLOCK FALSE
