SPECIFICATION Spec
CONSTANTS
  Together = 1
  Arms = 1
  Wait = 1
  Gap = 1
  Hist = 2
  Paths = 1
  End = 8
  NewPaths = TRUE
  Eager = FALSE
INVARIANT Bounded
CHECK_DEADLOCK FALSE
