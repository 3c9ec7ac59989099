SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT Depth = 3
CONSTANT MaxLeaves = 6
INVARIANT Contract
