SPECIFICATION Spec
CONSTANTS NY = 3
  NX = 3
  Lands <- FewLands
  Pos <- FewPos
INVARIANTS Weights1 Affine PlaneAffine OnlyAlike OnlyAlikeMean SomeSource Emit
