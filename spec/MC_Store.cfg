SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxRecords = 5
CONSTANT Batch = 2
CONSTANT MaxCalls = 3
INVARIANT Contract
