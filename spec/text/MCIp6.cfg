SPECIFICATION Spec
INVARIANTS Counting Emit
CHECK_DEADLOCK FALSE
