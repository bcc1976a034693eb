SPECIFICATION MSpec
CONSTANTS N = 1 Lines = 3 Slots = 1 R = 2 RingCheck = FALSE Drain = TRUE Joins = TRUE
INVARIANTS SInv Kept Proper Quiet

CHECK_DEADLOCK FALSE
