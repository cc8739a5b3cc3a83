SPECIFICATION Spec
CONSTANTS MaxLen = 2 Cols = 2
INVARIANTS RoundTrip Matches
CHECK_DEADLOCK FALSE
