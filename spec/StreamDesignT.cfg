SPECIFICATION Spec
CONSTANTS B1 = 3 B2 = 3 B3 = 2 MaxSent = 14
INVARIANTS Bounded Delivered Buffers
CHECK_DEADLOCK FALSE
