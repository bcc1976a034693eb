SPECIFICATION Fair
CONSTANTS Mode = "good"  N = 3  MaxT = 2  Lim = 2  Restarts = 2  Kinds = {1}  UseLogs = FALSE
INVARIANTS Counted NoneForgotten NothingElse
PROPERTIES OnlyOurs Justified DirsEmpty Comes
CHECK_DEADLOCK FALSE
