SPECIFICATION TSpec
INVARIANT Diag
CHECK_DEADLOCK FALSE
CONSTANT FirstId = 1004
