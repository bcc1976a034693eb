SPECIFICATION TSpec
INVARIANT Diag
CHECK_DEADLOCK FALSE
CONSTANTS Mode = "good"  Kinds = {1, 2, 3}
PROPERTIES OnlyOurs Justified DirsEmpty
