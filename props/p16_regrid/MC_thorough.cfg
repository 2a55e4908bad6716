SPECIFICATION Spec
CONSTANTS NY = 3
  NX = 3
  Lands <- AllLands
  Pos <- AllPos
INVARIANTS Weights1 Affine PlaneAffine OnlyAlike OnlyAlikeMean SomeSource Emit
