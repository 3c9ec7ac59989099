SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxRows = 3
CONSTANT MaxAggs = 2
INVARIANT Contract
