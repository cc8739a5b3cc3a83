SPECIFICATION Spec
CONSTANTS MaxFrames = 2 MaxData = 2 D = 2 CHECKED = FALSE
INVARIANTS Undamaged Cuts CutsAtBoundaries Changes Prefix
CHECK_DEADLOCK FALSE
