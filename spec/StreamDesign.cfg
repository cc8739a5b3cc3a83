SPECIFICATION Spec
CONSTANTS B1 = 2 B2 = 2 B3 = 1 MaxSent = 9
INVARIANTS Bounded Delivered Buffers
CHECK_DEADLOCK FALSE
