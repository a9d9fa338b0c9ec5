SPECIFICATION Spec
CONSTANTS
  M = 16
  D = 3
INVARIANTS Trichotomy Mirror SignAgrees Lossless Additive Returns Split Emit
CHECK_DEADLOCK FALSE
