SPECIFICATION Spec
CONSTANTS
  Together = 2
  Arms = 1
  Wait = 3
  Gap = 2
  Hist = 2
  Paths = 1
  End = 5
  NewPaths = TRUE
  Eager = TRUE
INVARIANT Bounded
CHECK_DEADLOCK FALSE
