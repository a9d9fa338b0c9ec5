SPECIFICATION MCSpec
CONSTANTS
  M = 16
  D = 3
  Lo <- LoV
  Hi = 5
  N = 4
INVARIANTS Inv Emit
CHECK_DEADLOCK FALSE
