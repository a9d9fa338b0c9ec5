SPECIFICATION TraceSpec
CONSTANT Aspects = {"build"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
