SPECIFICATION MSpec
CONSTANTS N = 1 Lines = 2 Slots = 1 R = 3 RingCheck = TRUE Drain = TRUE Joins = FALSE
INVARIANTS SInv Kept Proper Quiet

CHECK_DEADLOCK FALSE
