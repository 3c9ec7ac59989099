SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxRows = 6
CONSTANT MaxTake = 3
INVARIANT Contract
