SPECIFICATION Spec
CONSTANTS
  MaxRecs = 2
  MaxFields = 2
  MaxLen = 1
INVARIANTS RoundTrip Complete Ends
CHECK_DEADLOCK FALSE
