SPECIFICATION Spec
CONSTANTS Ny = 3
  Nx = 4
INVARIANTS SummedArea TextureBounded Smooth EdgesOnce ReachKnown Between Emit
