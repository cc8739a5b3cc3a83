SPECIFICATION Spec
CONSTANTS
  MaxTokens = 4
  MaxRows = 3
  Ticks = {1, 2, 10}
INVARIANTS Understood Refused RepeatsRefused Cut Turned Same
CHECK_DEADLOCK FALSE
