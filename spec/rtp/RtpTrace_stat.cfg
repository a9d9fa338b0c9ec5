SPECIFICATION TraceSpec
CONSTANT Aspects = {"stat"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
