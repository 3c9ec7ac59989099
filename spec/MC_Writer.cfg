SPECIFICATION Spec
CONSTANTS BUG = "none"
 Lens = {1, 3}
 Limit = 4
 MaxOps = 6
 Batch = TRUE
 Always = FALSE
 Parquet = FALSE
 Allow = {"invalid", "finalize", "failure", "fault"}
INVARIANT Contract Sync
VIEW View
