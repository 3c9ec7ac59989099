SPECIFICATION Spec
CONSTANT From = 1990
CONSTANT To = 2030
CONSTANT BUG = "none"
INVARIANT Contract
CHECK_DEADLOCK FALSE
