SPECIFICATION Spec
CONSTANTS NX = 3
  NY = 3
  R = 1
  RI = 1
INVARIANTS EdgeNeverFilled HasSource OnlyWet Coverage
