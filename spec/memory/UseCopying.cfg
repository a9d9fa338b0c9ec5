SPECIFICATION Spec
CONSTANTS
  Max = 15000
  Item = 96
  Own = 80
  Passes = 3
  Copying = TRUE
INVARIANT Proportional
CHECK_DEADLOCK FALSE
