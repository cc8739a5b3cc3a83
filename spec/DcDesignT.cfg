SPECIFICATION Spec
CONSTANTS
  MaxCols = 2
  MaxRows = 2
INVARIANTS RoundTrip EndOk Complete
CHECK_DEADLOCK FALSE
