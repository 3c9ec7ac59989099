SPECIFICATION Spec
CONSTANT MaxCalls = 2
CONSTANT MaxTries = 4
CONSTANT BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
