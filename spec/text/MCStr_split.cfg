SPECIFICATION Spec
CONSTANTS
  Items <- SplitItems
  N = 6
INVARIANTS SplitLaw Emit
CHECK_DEADLOCK FALSE
