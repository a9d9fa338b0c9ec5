SPECIFICATION TraceSpec
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
