SPECIFICATION Spec
CONSTANTS N = 3
INVARIANTS AnyOrder OnceEach Kept Untouched DefaultIsNothing Emit
CHECK_DEADLOCK FALSE
