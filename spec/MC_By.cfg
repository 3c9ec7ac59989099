SPECIFICATION Spec
CONSTANTS BUG = "none"
 States = {"none", "open", "done", "ignored"}
 Frs = {1, 2}
INVARIANT Agree OneBy
