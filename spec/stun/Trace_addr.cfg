SPECIFICATION TraceSpec
CONSTANT Aspects = {"addr"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
