SPECIFICATION Spec
CONSTANTS Slopes = {0, 10, 300}
  Spreads = {0, 5, 200, 900}
  Zs <- SomeZs
  Tops <- SomeTops
  Grids <- SomeGrids
INVARIANTS SeaUntouched WaveResolved RefBounded WithinColumn NeverBelowZero AboveRefOnlyHeight JoinsAtRef LogGrows DecaysUpwards HillsSpeedUp WholeIsSteps Emit
