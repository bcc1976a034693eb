SPECIFICATION MSpec
CONSTANTS N = 2 Lines = 3 Slots = 1 R = 3 RingCheck = TRUE Drain = TRUE Joins = TRUE
INVARIANTS SInv Kept Proper Quiet
PROPERTIES Run Gone
CHECK_DEADLOCK FALSE
