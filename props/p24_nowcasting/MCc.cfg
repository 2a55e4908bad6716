SPECIFICATION Spec
CONSTANTS NX = 3
  NY = 2
  R = 1
  RI = 1
INVARIANTS EdgeNeverFilled HasSource OnlyWet Coverage Emit
