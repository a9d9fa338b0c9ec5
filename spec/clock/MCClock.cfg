SPECIFICATION Spec
CONSTANTS
  M = 32
  D = 3
INVARIANTS Trichotomy Mirror SignAgrees Lossless Additive Returns Split
CHECK_DEADLOCK FALSE
