SPECIFICATION Spec
CONSTANTS
  Vals = {0, 5, 9}
  MaxRuns = 4
INVARIANTS RecordsSumToOne WithinInputs OneRecordEach Emit
