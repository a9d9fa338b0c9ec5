SPECIFICATION TraceSpec
CONSTANT Aspects = {"mi"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
