SPECIFICATION Spec
CONSTANT MaxLen = 2
CONSTANT NRecs = 1
CONSTANT BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
