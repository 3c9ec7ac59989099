SPECIFICATION Spec
CONSTANTS
  NJobs = 2
  NRows = 4
  BUG = ""
VIEW View
INVARIANT Contract
CHECK_DEADLOCK FALSE
