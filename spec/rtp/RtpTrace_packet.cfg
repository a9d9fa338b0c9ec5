SPECIFICATION TraceSpec
CONSTANT Aspects = {"packet"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
