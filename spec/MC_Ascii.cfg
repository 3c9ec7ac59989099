SPECIFICATION Spec
CONSTANT NRecs = 2
CONSTANT BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
