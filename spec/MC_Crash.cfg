SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxBatch = 3
CONSTANT Blobs = 2
CONSTANT Pieces = 2
INVARIANT Contract
