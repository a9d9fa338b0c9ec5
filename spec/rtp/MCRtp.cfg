SPECIFICATION Spec
CONSTANTS
  Firsts = {128, 144, 160, 176, 64, 0, 240}
  Ccs = {0, 1, 3, 15}
  ExtWords = {0, 1, 3}
  Payloads = {0, 1, 5}
  Pads = {1, 2, 7}
  Cuts = {0, 1, 2, 3, 4, 5, 12, 101, 102, 103, 104}
INVARIANTS Faithful Inside OneCounter Emit
CHECK_DEADLOCK FALSE
