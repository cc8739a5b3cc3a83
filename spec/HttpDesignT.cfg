SPECIFICATION Spec
CONSTANTS
  MaxBody = 5
  MaxPiece = 5
INVARIANTS Moves Right Agrees
CHECK_DEADLOCK FALSE
