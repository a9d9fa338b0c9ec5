SPECIFICATION TraceSpec
CONSTANT Aspects = {"frame"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
