SPECIFICATION Spec
CONSTANTS N = 2
  Quick = FALSE
INVARIANTS OrderOfFaults SameFacts VerboseAddsSources PostNeverHidden WarningsAreNotFaults Emit
PROPERTIES StaysRefused
CHECK_DEADLOCK FALSE
