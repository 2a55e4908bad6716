SPECIFICATION Spec
CONSTANTS
  NY = 2
  NX = 2
INVARIANTS TableIsSum OutsideBoxIsExtreme MeanBetween ValidHasMean Emit
