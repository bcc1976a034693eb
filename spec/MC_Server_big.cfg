SPECIFICATION MSpec
CONSTANTS N = 3 Lines = 3 Slots = 2 R = 3 RingCheck = TRUE Drain = TRUE Joins = TRUE
INVARIANTS SInv Kept Proper Quiet

CHECK_DEADLOCK FALSE
