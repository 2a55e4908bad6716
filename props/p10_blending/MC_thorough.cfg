SPECIFICATION Spec
CONSTANTS
  Vals = {0, 5, 9}
  MaxRuns = 5
INVARIANTS RecordsSumToOne WithinInputs OneRecordEach Emit
