SPECIFICATION Spec
CONSTANTS Slopes = {0, 1, 10, 50, 150, 300}
  Spreads = {0, 1, 5, 20, 60, 200, 500, 900}
  Zs <- SomeZs
  Tops <- SomeTops
  Grids <- SomeGrids
INVARIANTS SeaUntouched WaveResolved RefBounded WithinColumn NeverBelowZero AboveRefOnlyHeight JoinsAtRef LogGrows DecaysUpwards HillsSpeedUp WholeIsSteps Emit
