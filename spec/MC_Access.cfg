SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxName = 4
INVARIANT Contract
CHECK_DEADLOCK FALSE
