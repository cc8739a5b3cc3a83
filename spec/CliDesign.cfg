SPECIFICATION Spec
CONSTANTS
  MaxTokens = 3
  MaxRows = 2
  Ticks = {1, 2, 10}
INVARIANTS Understood Refused RepeatsRefused Cut Turned Same
CHECK_DEADLOCK FALSE
