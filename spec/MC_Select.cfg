SPECIFICATION Spec
CONSTANT NFields = 2
CONSTANT Depth = 1
CONSTANT BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
