SPECIFICATION Spec
CONSTANTS
 Contents = {1, 2, 3}
 Reps = {1, 2}
 Buckets = {1, 2}
 Vals = {1, 2}
 Coherent = TRUE
 Depth = 1000000
VIEW NoHist
INVARIANT Refines
CHECK_DEADLOCK FALSE
