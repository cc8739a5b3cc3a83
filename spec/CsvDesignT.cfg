SPECIFICATION Spec
CONSTANTS
  MaxRecs = 1
  MaxFields = 2
  MaxLen = 3
INVARIANTS RoundTrip Complete Ends
CHECK_DEADLOCK FALSE
