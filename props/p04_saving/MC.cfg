SPECIFICATION Spec
CONSTANTS
  NOps = 3
  NPieces = 2
INVARIANTS DestComplete Atomic DuringOldOrNew Emit
