SPECIFICATION Spec
CONSTANTS
  MaxRows = 12
  MaxGroups = 5
  BUG = ""
INVARIANT Contract
CHECK_DEADLOCK FALSE
