SPECIFICATION Spec
CONSTANT Len1 = 2
INVARIANTS LastWord Emit
PROPERTY Untouched
