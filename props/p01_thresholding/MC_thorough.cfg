SPECIFICATION Spec
CONSTANTS
  Vals <- V3
  NS = 2
  NX = 3
INVARIANTS InRange Batch MaskOnlyIfNever Complement VicinityNeverLowers Monotone
CHECK_DEADLOCK FALSE
