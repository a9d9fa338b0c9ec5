SPECIFICATION Spec
CONSTANT MaxBad = 2
INVARIANTS Accepted Unsup OneError Emit
CHECK_DEADLOCK FALSE
