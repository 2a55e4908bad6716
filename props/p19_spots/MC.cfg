SPECIFICATION Spec
CONSTANTS Ny = 2
  Nx = 2
  Kinds <- AllKinds
INVARIANTS Found OnLand Closer Nearest OneNode Emit
