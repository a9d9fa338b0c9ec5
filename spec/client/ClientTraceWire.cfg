SPECIFICATION TraceSpec
CONSTANT CheckWire = TRUE
INVARIANT TraceInv
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
