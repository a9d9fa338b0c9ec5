SPECIFICATION TraceSpec
CONSTANT Aspects = {"decide"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
