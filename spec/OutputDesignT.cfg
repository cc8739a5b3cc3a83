SPECIFICATION Spec
CONSTANTS Buf = 3 MaxPiece = 4 MaxRows = 3 MaxRoom = 10
INVARIANT Right
CHECK_DEADLOCK TRUE
