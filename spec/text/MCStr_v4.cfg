SPECIFICATION Spec
CONSTANTS
  Items <- V4Items
  N = 5
INVARIANTS IpLaw Emit
CHECK_DEADLOCK FALSE
