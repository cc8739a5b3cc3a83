SPECIFICATION Spec
CONSTANTS
 MaxUsers = 1
 Small = FALSE
INVARIANTS Inv Alone
CHECK_DEADLOCK FALSE
