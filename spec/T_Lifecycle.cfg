SPECIFICATION TSpec
INVARIANT Diag
CHECK_DEADLOCK FALSE
