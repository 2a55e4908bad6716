SPECIFICATION Spec
CONSTANTS Ny = 3
  Nx = 3
INVARIANTS SummedArea TextureBounded Smooth EdgesOnce ReachKnown Between Emit
