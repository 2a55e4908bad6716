SPECIFICATION Spec
CONSTANTS
  MaxV = 3
INVARIANTS Rises Alone Equal Between0 Emit
