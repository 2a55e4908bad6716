SPECIFICATION Spec
CONSTANTS Kinds = {"coef", "static", "mask", "prob", "fc", "other"}
  Most = 4
INVARIANTS OrderOfInputs NothingLost NoForecastNoResult OnlyWithCoefs Emit
CHECK_DEADLOCK FALSE
