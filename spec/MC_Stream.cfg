SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT Threads = {1, 2}
CONSTANT PerThread = 2
CONSTANT Paths = {"x", "y"}
CONSTANT Full = 2
CONSTANT MaxFails = 1
INVARIANT Contract
CONSTANT MaxPass = 2
