SPECIFICATION Spec
CONSTANTS Buf = 2 MaxPiece = 3 MaxRows = 2 MaxRoom = 7
INVARIANT Right
CHECK_DEADLOCK TRUE
