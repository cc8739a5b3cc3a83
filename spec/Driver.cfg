SPECIFICATION Spec
CONSTANT Faults = {"r", "w", "f"}
INVARIANT Succeeds
PROPERTY Terminates
CHECK_DEADLOCK TRUE
