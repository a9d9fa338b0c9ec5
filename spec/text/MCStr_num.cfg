SPECIFICATION Spec
CONSTANTS
  Items <- NumItems
  N = 4
INVARIANTS NumLaw Emit
CHECK_DEADLOCK FALSE
