SPECIFICATION Spec
CONSTANT BUG = ""
INVARIANT Contract Flat1
