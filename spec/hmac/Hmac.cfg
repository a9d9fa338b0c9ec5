SPECIFICATION Spec
CONSTANTS
  B = 2
  Bytes = {0, 1}
  Outs <- OutsV
  KeyLens = {0, 1, 2, 3, 4}
  MsgLens = {0, 1, 2}
  Parts = {1, 2, 3}
INVARIANTS Formula Calls Emit
CHECK_DEADLOCK FALSE
