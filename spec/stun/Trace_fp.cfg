SPECIFICATION TraceSpec
CONSTANT Aspects = {"fp"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
