SPECIFICATION MSpec
CONSTANTS MaxOps = 8 MaxLen = 5
INVARIANTS PInv InOrder NothingLeft
CHECK_DEADLOCK FALSE
