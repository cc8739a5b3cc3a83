SPECIFICATION Spec
CONSTANTS MaxLen = 3 Cols = 2
INVARIANTS RoundTrip Matches
CHECK_DEADLOCK FALSE
