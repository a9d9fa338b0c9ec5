SPECIFICATION Spec
CONSTANTS
  Items <- V6Items
  N = 5
INVARIANTS IpLaw Emit
CHECK_DEADLOCK FALSE
