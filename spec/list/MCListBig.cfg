SPECIFICATION Spec
CONSTANTS
  Lists = {1, 2, 3}
  Elems = {1, 2, 3}
  Links = {1, 2}
  MaxLen = 12
VIEW View
INVARIANT Sound
CHECK_DEADLOCK FALSE
