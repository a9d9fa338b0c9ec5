SPECIFICATION Spec
CONSTANTS
  Lists = {1, 2}
  Elems = {1, 2, 3}
  Links = {1}
  MaxLen = 12
VIEW View
INVARIANT Sound
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
