SPECIFICATION Spec
CONSTANTS
  Deep = FALSE
  Wide = 2
  BUG = ""
INVARIANT Contract
CHECK_DEADLOCK FALSE
