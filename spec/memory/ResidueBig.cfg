SPECIFICATION Spec
CONSTANTS
  Together = 2
  Arms = 2
  Wait = 2
  Gap = 1
  Hist = 2
  Paths = 3
  End = 5
  NewPaths = FALSE
  Eager = TRUE
INVARIANT Bounded
CHECK_DEADLOCK FALSE
