SPECIFICATION Spec
CONSTANT NBlobs = 5
CONSTANT NProcs = 2
CONSTANT Sched = FALSE
CONSTANT BUG = "none"
INVARIANT Contract NoStuck
PROPERTY Ends
CHECK_DEADLOCK FALSE
