SPECIFICATION Spec
CONSTANT Len1 = 3
INVARIANTS LastWord Emit
PROPERTY Untouched
