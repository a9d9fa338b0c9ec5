SPECIFICATION Spec
CONSTANTS
  Items <- FoundItems
  N = 4
INVARIANTS NumLaw Emit
CHECK_DEADLOCK FALSE
