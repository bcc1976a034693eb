SPECIFICATION Spec
CONSTANTS Mode = "skip"  N = 4  MaxT = 3  Lim = 2  Restarts = 2  Kinds = {1}  UseLogs = FALSE
INVARIANTS Counted NoneForgotten NothingElse
PROPERTIES OnlyOurs Justified DirsEmpty 
CHECK_DEADLOCK FALSE
