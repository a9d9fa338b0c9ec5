SPECIFICATION TraceSpec
CONSTANT CheckWire = FALSE
INVARIANT TraceInv
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
