SPECIFICATION Spec
CONSTANT BUG = ""
CONSTANT Params1 = {"dataset", "raw_path", "freshness_limit", "partitions", "multiprocess", "cursor"}
CONSTANT MaxCalls = 1
INVARIANT Contract
CHECK_DEADLOCK FALSE
