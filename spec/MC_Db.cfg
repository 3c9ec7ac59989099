SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT Batch = 3
CONSTANT MaxOps = 9
CONSTANT MaxFails = 2
INVARIANT Contract
VIEW View
