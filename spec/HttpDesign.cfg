SPECIFICATION Spec
CONSTANTS
  MaxBody = 3
  MaxPiece = 3
INVARIANTS Moves Right Agrees
CHECK_DEADLOCK FALSE
