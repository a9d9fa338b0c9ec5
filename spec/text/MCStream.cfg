SPECIFICATION Spec
CONSTANTS
  T = 3
  K = 4
INVARIANTS InOrder Emit
CHECK_DEADLOCK FALSE
