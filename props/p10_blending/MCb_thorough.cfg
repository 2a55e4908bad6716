SPECIFICATION Spec
CONSTANTS
  MaxV = 5
INVARIANTS Rises Alone Equal Between0 Emit
