SPECIFICATION TraceSpec
INVARIANT TraceInv
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
