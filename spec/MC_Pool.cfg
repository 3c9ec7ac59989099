SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT Paths = {"a", "b", "c", "d"}
CONSTANT MaxRounds = 4
CONSTANT MaxBurst = 3
CONSTANT Idle = 15
CONSTANT Cap = 2
INVARIANT Contract
VIEW View
