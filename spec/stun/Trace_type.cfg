SPECIFICATION TraceSpec
CONSTANT Aspects = {"type"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
