SPECIFICATION Spec
CONSTANTS N = 4
  Hs <- Heights
  Ts <- Temps
INVARIANTS Odd Odd2 InBounds Alone Back2 Exps Emit
