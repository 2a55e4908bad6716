SPECIFICATION Spec
CONSTANTS N = 2
INVARIANTS AnyOrder OnceEach Kept Untouched DefaultIsNothing Emit
CHECK_DEADLOCK FALSE
