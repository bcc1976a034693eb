SPECIFICATION MSpec
CONSTANTS MaxOps = 6 MaxLen = 4
INVARIANTS PInv InOrder NothingLeft
CHECK_DEADLOCK FALSE
