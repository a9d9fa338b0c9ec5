SPECIFICATION Spec
CONSTANTS
  W = 16
  B = 4
  N = 2
  M = 5
  Shift = 4
  MaxLen = 3
INVARIANT Spreads
CHECK_DEADLOCK FALSE
