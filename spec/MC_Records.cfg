SPECIFICATION Spec
CONSTANTS
  Depth = 2
  BUG = ""
INVARIANT Contract
CHECK_DEADLOCK FALSE
