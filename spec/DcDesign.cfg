SPECIFICATION Spec
CONSTANTS
  MaxCols = 2
  MaxRows = 1
INVARIANTS RoundTrip EndOk Complete
CHECK_DEADLOCK FALSE
