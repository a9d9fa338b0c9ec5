SPECIFICATION Spec
CONSTANTS
  Together = 1
  Arms = 2
  Wait = 2
  Gap = 1
  Hist = 2
  Paths = 1
  End = 8
  NewPaths = TRUE
  Eager = TRUE
INVARIANT Bounded
CHECK_DEADLOCK FALSE
