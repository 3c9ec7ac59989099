SPECIFICATION Spec
CONSTANT MaxEdits = 1
CONSTANT BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
