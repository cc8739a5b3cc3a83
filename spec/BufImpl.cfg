SPECIFICATION Spec
CONSTANTS Cap = 3
  MaxLen = 6
  MaxErr = 2
INVARIANT Conserved
CHECK_DEADLOCK TRUE
