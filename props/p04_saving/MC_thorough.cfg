SPECIFICATION Spec
CONSTANTS
  NOps = 4
  NPieces = 4
INVARIANTS DestComplete Atomic DuringOldOrNew Emit
