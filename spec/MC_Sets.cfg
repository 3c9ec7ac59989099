SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxRows = 3
CONSTANT MaxChain = 2
INVARIANT Contract
