SPECIFICATION MSpec
CONSTANTS Depth = 3
 NT = 3
 MaxChg = 5
 Locked = TRUE
INVARIANTS CInv Same Able
CHECK_DEADLOCK FALSE
