SPECIFICATION Spec
CONSTANTS
  Items <- NameItems
  N = 6
INVARIANTS NameLaw Emit
CHECK_DEADLOCK FALSE
