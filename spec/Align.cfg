SPECIFICATION Spec
CONSTANTS MaxCols = 3
  Names = {"a", "b", "c"}
  Types = {1, 2}
INVARIANT Correct
CHECK_DEADLOCK FALSE
