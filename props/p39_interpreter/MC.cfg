SPECIFICATION Spec
CONSTANTS N = 1
  Quick = TRUE
INVARIANTS OrderOfFaults SameFacts VerboseAddsSources PostNeverHidden WarningsAreNotFaults Emit
PROPERTIES StaysRefused
CHECK_DEADLOCK FALSE
