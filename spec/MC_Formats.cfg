SPECIFICATION Spec
CONSTANT NFiles = 2
CONSTANT MaxUnits = 3
CONSTANT BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
