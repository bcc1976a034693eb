SPECIFICATION Fair
CONSTANTS Mode = "good"  N = 2  MaxT = 2  Lim = 2  Restarts = 2  Kinds = {1}  UseLogs = TRUE
INVARIANTS Counted NoneForgotten NothingElse
PROPERTIES OnlyOurs Justified DirsEmpty Comes
CHECK_DEADLOCK FALSE
