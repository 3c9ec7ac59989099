SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT NDAYS = 3
CONSTANT Limits = {0, 1, 23, 24, 36, 47, 48, 49, 72, 96}
INVARIANT Contract
PROPERTY Ends
