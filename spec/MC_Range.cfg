SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT SY = 2024
CONSTANT SM = 2
CONSTANT SD = 27
CONSTANT LEN = 5
INVARIANT Contract
