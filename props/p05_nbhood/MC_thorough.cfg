SPECIFICATION Spec
CONSTANTS
  NY = 2
  NX = 3
INVARIANTS TableIsSum OutsideBoxIsExtreme MeanBetween ValidHasMean Emit
