SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT MaxBlobs = 3
CONSTANT MaxRecs = 2
CONSTANT MaxHops = 3
CONSTANT MaxAdds = 1
INVARIANT Contract
VIEW View
