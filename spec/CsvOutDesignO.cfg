SPECIFICATION Spec
CONSTANTS MaxLen = 4 Cols = 1
INVARIANTS RoundTrip Matches
CHECK_DEADLOCK FALSE
