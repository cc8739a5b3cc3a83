SPECIFICATION Spec
CONSTANTS
 MaxUsers = 1
 Small = TRUE
INVARIANTS Inv Alone
CHECK_DEADLOCK FALSE
