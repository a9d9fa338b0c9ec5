SPECIFICATION TraceSpec
CONSTANT Aspects = {"attrs"}
POSTCONDITION Matched
CHECK_DEADLOCK FALSE
