SPECIFICATION Spec
CONSTANTS
    BUG = "none"
    Depth = 2
    Width = 2
    MaxLeaves = 6
INVARIANT Contract
CHECK_DEADLOCK FALSE
