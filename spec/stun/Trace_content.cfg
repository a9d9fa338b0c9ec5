SPECIFICATION TraceSpec
CONSTANT Aspects = {"content"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
