SPECIFICATION MSpec
CONSTANTS N = 3 Lines = 2 Slots = 2 R = 2 RingCheck = TRUE Drain = TRUE Joins = TRUE
INVARIANTS SInv Kept Proper Quiet

CHECK_DEADLOCK FALSE
