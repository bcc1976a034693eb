SPECIFICATION Spec
CONSTANTS Mode = "good"  N = 4  MaxT = 3  Lim = 3  Restarts = 1  Kinds = {1}  UseLogs = FALSE
INVARIANTS Counted NoneForgotten NothingElse
PROPERTIES OnlyOurs Justified DirsEmpty 
CHECK_DEADLOCK FALSE
