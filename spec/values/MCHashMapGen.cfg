SPECIFICATION Spec
CONSTANTS
 Contents = {1, 2}
 Reps = {1, 2}
 Buckets = {1}
 Vals = {1, 2}
 Coherent = TRUE
 Depth = 3
INVARIANTS Refines Emit
CHECK_DEADLOCK FALSE
