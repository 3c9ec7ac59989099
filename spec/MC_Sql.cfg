SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxRows = 2
CONSTANT Deep = FALSE
INVARIANT Contract
CHECK_DEADLOCK FALSE
