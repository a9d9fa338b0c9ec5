SPECIFICATION Spec
CONSTANTS
  MaxAdds = 2
  MaxReqs = 1
  Emitting = TRUE
INVARIANTS Emit
CHECK_DEADLOCK FALSE
